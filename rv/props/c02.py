"""C02: enable times equal the completion of the enabling predecessors; events take their sampled duration."""
from .. import law, scenario, model
from ..sim import execute, explain, arrival, can_be_empty, shape, short, NORES
from . import c01

N = {"quick": 7000, "thorough": 50000}
RULE = ("random models, resources and loads as in C01 with emphasis on concurrency; each case's rows are explained by the timed "
        "process-tree replay (enable time = predecessor completion, join = latest activated branch); non-trivial: at least one "
        "explained case contains a join of two executed branches or a loop; distinct by model shape")
MUST_SEE = ["rows", "event_rows", "explained_cases", "join_models", "event_durations_checked", "law_tests"]
ASSUME = ["a case's arrival instant is the enable time of its first work items (checked against the arrival process by C07)"]


def gen(r, tier, i):
    p = dict(p_event=.2)
    if i % 3 == 0:
        p.update(kinds={"and": 4, "or": 3, "xor": 1, "seq": 2, "loop": 1, "evg": .5}, dists=["uniform", "expon", "norm"])
    elif i % 3 == 1:
        p.update(n=(3, 25), load=.1, resources=(1, 3))
    if i % 40 == 7:
        p = dict(p_event=.6, n=(120, 250), budget=(1, 4), load=.02, dists=["uniform", "expon", "norm", "gamma", "lognorm"])
    elif i % 5 == 4:
        p.update(p_loop_back=.6, kinds={"loop": 3, "and": 2, "or": 1, "xor": 1, "seq": 2}, n=(1, 5))
    while True:
        sc = scenario.gen(r, **p)
        if not can_be_empty(sc["tree"]):
            return sc


def judge(sc, out):
    v, res = execute(sc, out)
    check(sc, v, res, out)
    if any(n[0] in ("and", "or", "loop") for n in model.walk(sc["tree"])):
        out.sig = shape(sc)
        out.obs["join_models"] += 1
    out.sample = short(sc, res.log)


def check(sc, v, res, out):
    for r in res.log.rows:
        if not (r["en"] - 5 <= r["st"] <= r["co"]):  # (instants are rounded to microseconds)
            out.bad("order", "row %d: enable<=start<=end violated: %s" % (r["idx"], r["raw"][:5]))
        if r["is_event"]:
            if abs(r["st"] - r["en"]) > 5:
                out.bad("event-start", "event row %d starts %d us after being enabled" % (r["idx"], r["st"] - r["en"]))
            lo, hi = scenario.bounds(v.evd[r["label"]])
            d = (r["co"] - r["st"]) / 1e6
            out.obs["event_durations_checked"] += 1
            if not lo - 1e-5 <= d <= hi + 1e-5:
                out.bad("event-duration", "event row %d lasts %.6f s, configured [%s, %s]" % (r["idx"], d, lo, hi))
    if sc.get("tree"):
        free = {n[1] for n in model.walk(sc["tree"]) if n[0] == "event"}    # (the winner of a race does not follow its own law)
        for e in sorted(free):
            xs = [(r["co"] - r["st"]) / 1e6 for r in res.log.rows if r["label"] == e]
            f = law.of(v.evd[e]) if len(xs) >= 60 else None
            if f is not None:
                out.obs["law_tests"] += 1
                if law.unlike(xs, f) or law.dependent(xs):
                    out.bad("law", "the %d durations of event %s do not look drawn from %s: %s.." % (len(xs), e, v.evd[e], xs[:5]))
    for c, rows in sorted(res.log.by_case().items()):
        if any(r["label"] is None for r in rows):
            out.inconclusive = "unknown activity"
            return
        if explain(sc, rows, True) is None:
            if explain(sc, rows, False) is None:
                out.bad("non-conforming", "case %d is not a run of the model" % c)
            else:
                out.bad("enable-time", "case %d: no run of the model explains the enable times: %s" % (
                    c, [(r["label"], r["raw"][2], r["raw"][4]) for r in rows][:12]))
        else:
            out.obs["explained_cases"] += 1
