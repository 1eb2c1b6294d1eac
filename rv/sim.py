"""Shared steps of the simulation monitors: run, label rows, explain cases."""
from . import model
from .replay import Replay, TooHard
from .run import simulate
from .scenario import View, bounds

NORES = "No assigned resource"


def execute(sc, out, **kw):
    v = View(sc)
    res = simulate(sc, **kw)
    for r in res.log.rows:
        r["label"] = v.label.get(r["act"])
        r["is_event"] = r["label"] in v.events
    out.obs["rows"] += len(res.log.rows)
    out.obs["event_rows"] += sum(r["is_event"] for r in res.log.rows)
    out.obs["cases"] += sc["n"]
    return v, res


def explain(sc, rows, timed, t0=None):
    """explanation of one case as {row idx: (idx of the last enabling row, enabled at us)} or None"""
    rp = Replay(sc["tree"], rows, timed)
    u = rp.run(min(r["en"] for r in rows) if t0 is None else t0)
    if u is None:
        return None
    return {i: (d, t) for i, d, t in u}


def decisions(sc, rows):
    """(explanation, [(gateway, last row before it, instant, branches)]) of a case, or None"""
    rp = Replay(sc["tree"], rows, True, decisions=True)
    u = rp.run(min(r["en"] for r in rows))
    if u is None:
        return None
    return {x[0]: (x[1], x[2]) for x in u if len(x) == 3}, [x for x in u if len(x) == 4]


def arrival(rows):
    return min(r["en"] for r in rows)


def can_be_empty(t):
    """True if some run of the tree executes nothing"""
    if t is None:
        return True
    k = t[0]
    if k in ("task", "event", "evg"):
        return False
    if k == "seq":
        return all(can_be_empty(c) for c in t[1])
    if k in ("xor", "or"):
        return any(can_be_empty(c) for c in t[2])
    if k == "and":
        return all(can_be_empty(c) for c in t[2])
    if k == "loop":
        return can_be_empty(t[2])


def shape(sc):
    """feature signature of a model"""
    ks = sorted({n[0] for n in model.walk(sc["tree"])})
    nest = set()

    def rec(t, path):
        if t is None:
            return
        k = t[0]
        ch = t[1] if k == "seq" else t[2] if k in ("xor", "and", "or") else [t[2], t[3]] if k == "loop" else \
            [c for _, c in t[2]] if k == "evg" else []
        if k in ("xor", "and", "or", "loop", "evg"):
            if path:
                nest.add(path + ">" + k)
            path = k
        for c in ch:
            rec(c, path)
    rec(sc["tree"], "")
    return ",".join(ks) + "|" + ",".join(sorted(nest)) + "|" + ",".join(sorted(set(sc["fakes"])))


def short(sc, log, k=6):
    return {"tree": sc["tree"], "n": sc["n"], "start": sc["start"], "fakes": sc["fakes"],
            "first_rows": [r["raw"][:6] for r in log.rows[:k]]}
