"""Process environment of every check: real code from /repo, no byte code written there."""
import os, sys
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
WANT = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "TZ": "UTC",
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
        "PYTHONWARNINGS": "ignore"}


def ensure():
    """Re-execute under the build's interpreter with a fixed environment."""
    if os.environ.get("RV_ENV") != "1":
        env = dict(os.environ)
        env.update(WANT)
        env["RV_ENV"] = "1"
        env["PYTHONPATH"] = REPO + os.pathsep + VERIF
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py] + sys.argv, env)
    sys.dont_write_bytecode = True
    for p in (VERIF, REPO):
        while p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
