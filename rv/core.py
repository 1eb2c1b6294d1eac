"""Check runner: case generation, parallel judging, verdicts, known findings, evidence."""
import collections, importlib, json, multiprocessing as mp, os, random, signal, sys, time, traceback
from . import env

CPU_CAP = 90          # CPU seconds for one case (typical: < 1 s)
SOFT_DEADLINE = {"quick": 600, "thorough": 3 * 3600}


class Out:
    """Verdict of one judged case."""

    def __init__(self):
        self.viol = []        # (kind, message)
        self.obs = collections.Counter()
        self.sig = None       # signature of a non-trivial case
        self.inconclusive = None
        self.sample = None

    def bad(self, kind, msg):
        if len(self.viol) < 20:
            self.viol.append((kind, msg))

    def dump(self):
        return dict(viol=self.viol, obs=dict(self.obs), sig=self.sig, inconclusive=self.inconclusive, sample=self.sample)


class CpuCap(BaseException):
    pass


def _alarm(*a):
    raise CpuCap()


def module(pid):
    return importlib.import_module("rv.props." + pid.lower())


def judge(mod, payload):
    from .run import SimCrash, BadLog
    from .replay import TooHard
    out = Out()
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, "CPU_CAP", CPU_CAP))
    try:
        mod.judge(payload, out)
    except CpuCap:
        out.bad("no-termination", "the run did not finish within %d CPU seconds" % getattr(mod, "CPU_CAP", CPU_CAP))
    except SimCrash as e:
        out.bad("crash", "simulation of a valid scenario failed: %s" % e)
    except BadLog as e:
        out.bad("bad-log", "log unreadable: %s" % e)
    except TooHard:
        out.inconclusive = "replay search limit"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = tb[-1].filename
        if where.startswith(env.REPO) or any(f.filename.startswith(env.REPO + "/") for f in tb):
            out.bad("crash", "%s: %s at %s:%s" % (type(e).__name__, e, where, tb[-1].lineno))
        else:
            raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return out.dump()


def _work(args):
    pid, tier, seed, i = args
    mod = module(pid)
    rng = random.Random("%s:%s:%s:%s" % (pid, seed, tier, i))
    try:
        payload = mod.gen(rng, tier, i)
        return i, payload, judge(mod, payload), None
    except BaseException:
        return i, None, None, traceback.format_exc()


def _fixed(args):
    pid, key = args
    mod = module(pid)
    try:
        payload = mod.fixed()[key]
        return key, payload, judge(mod, payload), None
    except BaseException:
        return key, None, None, traceback.format_exc()


def known(pid):
    """keys of the recorded, unrepaired findings of a property -> text"""
    out = {}
    p = os.path.join(env.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding:"):
                w = line.split(None, 3)
                if w[1] == "property=" + pid:
                    out[w[2].split("=", 1)[1]] = w[3]
    return out


def write_replay(pid, tag, payload, msgs):
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s_%s.json" % (pid, tag))
    with open(p, "w") as f:
        json.dump({"property": pid, "violations": msgs, "payload": payload}, f, indent=1, default=str)
    return p


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = module(pid)
    if "--replay" in argv:
        payload = json.load(open(argv[argv.index("--replay") + 1]))["payload"]
        r = judge(mod, payload)
        print(json.dumps(r, indent=1, default=str))
        return 1 if r["viol"] else 0
    t0 = time.time()
    n = mod.N[tier]
    if "--n" in argv:
        n = int(argv[argv.index("--n") + 1])
    kn = known(pid)
    obs, sigs, samples, incon, viols, errors, evals = collections.Counter(), set(), [], collections.Counter(), [], [], 0
    known_hit = {}
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    deadline = t0 + SOFT_DEADLINE[tier]
    fixed_keys = sorted(mod.fixed()) if hasattr(mod, "fixed") else []
    import prosimos.simulation_engine  # noqa: imported once, shared by the forked workers
    with mp.Pool(jobs, initializer=_init) as pool:
        for key, payload, r, err in pool.imap_unordered(_fixed, [(pid, k) for k in fixed_keys]):
            if err:
                errors.append(err)
                continue
            evals += 1
            obs.update(r["obs"])
            if r["viol"]:
                if key in kn:
                    known_hit[key] = r["viol"][0][1]
                else:
                    viols.append(("fixed_" + key, payload, r["viol"]))
        it = pool.imap_unordered(_work, [(pid, tier, seed, i) for i in range(n)], chunksize=1)
        for i, payload, r, err in it:
            if err:
                errors.append(err)
                if len(errors) > 5:
                    break
                continue
            evals += 1
            obs.update(r["obs"])
            if r["inconclusive"]:
                incon[r["inconclusive"]] += 1
            if r["sig"] is not None:
                if r["sig"] not in sigs and len(samples) < 4 and r["sample"]:
                    samples.append(r["sample"])
                sigs.add(r["sig"])
            if r["viol"]:
                viols.append(("s%d_%s_%d" % (seed, tier, i), payload, r["viol"]))
                if len(viols) >= 4:
                    break
            if time.time() > deadline:
                break
        if hasattr(mod, "finish") and not viols:
            o = Out()
            mod.finish(o, obs)
            if o.viol:
                viols.append(("aggregate", {"aggregate": dict(obs)}, o.viol))
        pool.terminate()
    status = 0
    for key, txt in sorted(kn.items()):
        if key in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, txt))
    for tag, payload, v in viols:
        path = write_replay(pid, tag, payload, v)
        print("  %s: %s" % (v[0][0], str(v[0][1])[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        status = 1
    cov = {"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": mod.RULE,
           "samples": samples or ["none"], "observed": {k: v for k, v in sorted(obs.items())},
           "inconclusive": dict(incon), "known_findings_reproduced": sorted(known_hit)}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": getattr(mod, "ASSUME", []), "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d evaluations, %d distinct non-trivial, inconclusive %s, %d violations, %.1f s" % (
        pid, tier, evals, len(sigs), dict(incon), len(viols), time.time() - t0))
    if status == 0 and errors:
        print("ERROR in the check itself:\n" + errors[0])
        return 3
    if status == 0:
        miss = [k for k in getattr(mod, "MUST_SEE", []) if not obs.get(k)]
        if miss or (evals and sum(incon.values()) > evals * .2) or not sigs:
            print("INCONCLUSIVE: never observed %s; inconclusive cases %s" % (miss, dict(incon)))
            return 4
    return status


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(20000)
