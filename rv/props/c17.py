"""C17: at an event-based gateway exactly one event occurs, one that is never later than another one could have been."""
import math
import numpy as np
from .. import model, scenario
from ..sim import execute, can_be_empty, shape, short
from .c01 import check_cases

N = {"quick": 3600, "thorough": 30000}
RULE = ("random models with event-based gateways (nested, in loops and concurrency) and event durations that are tied, disjoint, nested or "
        "overlapping; every occurrence is checked against the durations possible for its rivals, and in one of three runs the winners and "
        "their durations over hundreds of visits are compared with an independent race; non-trivial: a gateway whose events can each win; "
        "distinct by durations and shape")
MUST_SEE = ["visits", "ties", "always_late_rivals", "overlapping_races", "frequency_tests", "winner_means", "visits_in_loops",
            "bound_by_rival"]
ASSUME = ["frequencies are compared at 6.5 standard deviations of the binomial or normal law"]


def race(r):
    """durations of 2 to 4 rivals"""
    k = r.randint(2, 4)
    z = r.random()
    m = r.choice([30, 600, 9000])
    ds = []
    fixed = lambda x: scenario.fix(round(x, 1))
    uni = lambda a, b: {"distribution_name": "uniform", "distribution_params": [{"value": round(a, 1)}, {"value": round(b, 1)}]}
    if z < .25:
        x = round(r.uniform(1, m), 1)
        ds = [fixed(x) for _ in range(k)]
        if k > 2 and r.random() < .5:
            ds[-1] = fixed(x + r.uniform(1, m))
    elif z < .5:
        x = r.uniform(1, m)
        ds = [uni(x / 2, x)] + [uni(x + r.uniform(.5, 5), x + r.uniform(6, m)) for _ in range(k - 1)]
    elif z < .75:
        ds = [uni(r.uniform(0, m / 2), r.uniform(m / 2 + 1, m + 2)) for _ in range(k)]
        if r.random() < .5:
            ds[0] = fixed(m / 2 * r.uniform(.8, 1.2))
    else:
        ds = [scenario.dist(r, scenario.ALLD, 0, m) for _ in range(k)]
    r.shuffle(ds)
    return ds


def gen(r, tier, i):
    freq = i % 3 == 0
    if freq:
        ds = race(r)
        tree = ["evg", "g1", [["e%d" % k, ["task", "t%d" % (k + 1)] if r.random() < .4 else None] for k in range(len(ds))]]
        tree = ["seq", [["task", "t0"], tree]] if r.random() < .7 else ["loop", "g2", ["seq", [["task", "t0"], tree]], None]
        sc = scenario.gen(r, tree=tree, n=(250, 250), dists=["fix"], prio=0, dur=(0, 100), nasty=0)
        sc["json"]["event_distribution"] = [dict({"event_id": "e%d" % k}, **d) for k, d in enumerate(ds)]
    else:
        while True:
            sc = scenario.gen(r, n=(1, 12), kinds={"seq": 3, "xor": 1, "and": 1, "or": .7, "loop": 1.5, "evg": 3, "leaf": .3}, p_event=.1, tail=.5)
            gs = model.gateways(sc["tree"], ("evg",))
            if gs and not can_be_empty(sc["tree"]):
                break
        ed = {e["event_id"]: e for e in sc["json"]["event_distribution"]}
        for g in gs:
            ds = race(r)
            for k, (e, _) in enumerate(g[2]):
                ed[e] = dict({"event_id": e}, **ds[k % len(ds)])
        sc["json"]["event_distribution"] = r.sample(list(ed.values()), len(ed))
    sc["freq"] = freq
    return sc


def judge(sc, out):
    v, res = execute(sc, out)
    check_cases(sc, v, res, out)
    loops = {m[1] for n in model.walk(sc["tree"]) if n[0] == "loop" for m in model.walk(n) if m[0] == "evg"}
    for g in model.gateways(sc["tree"], ("evg",)):
        es = [e for e, _ in g[2]]
        b = {e: scenario.bounds(v.evd[e]) for e in es}
        rows = [r for r in res.log.rows if r["label"] in es]
        out.obs["visits"] += len(rows)
        if g[1] in loops:
            out.obs["visits_in_loops"] += len(rows)
        for r in rows:
            d = (r["co"] - r["st"]) / 1e6
            e = r["label"]
            lim = min(b[x][1] for x in es if x != e)
            if d > lim + .001:
                out.bad("not-earliest", "row %d: %s occurs after %.6f s although a rival occurs within %.3f s (bounds %s)" % (r["idx"], e, d, lim, b))
            out.obs["bound_by_rival"] += lim < b[e][1]
            if not b[e][0] - .001 <= d <= b[e][1] + .001:
                out.bad("duration", "row %d: %s occurs after %.6f s, its distribution is in %s" % (r["idx"], e, d, b[e]))
        los = [b[e][0] for e in es]
        out.obs["ties"] += len({b[e] for e in es}) < len(es)
        can = [e for e in es if all(b[e][0] <= b[x][1] for x in es)]
        out.obs["always_late_rivals"] += len(can) < len(es)
        out.obs["overlapping_races"] += len(can) > 1
        if len(can) > 1:
            out.sig = repr(sorted(b.values())) + shape(sc)
        if sc["freq"]:
            frequencies(g, es, v, rows, out)
    out.sample = short(sc, res.log)


def frequencies(g, es, v, rows, out):
    if any(v.evd[e]["distribution_name"] not in ("fix", "uniform") for e in es):
        return
    n = len(rows)
    rng = np.random.default_rng(7)
    M = 200000
    smp = np.array([np.full(M, scenario.bounds(v.evd[e])[0]) if v.evd[e]["distribution_name"] == "fix"
                    else rng.uniform(*scenario.bounds(v.evd[e]), M) for e in es])
    mn = smp.min(axis=0)
    tie = smp == mn
    wins = tie / tie.sum(axis=0)
    for k, e in enumerate(es):
        p = wins[k].mean()
        c = sum(r["label"] == e for r in rows)
        out.obs["frequency_tests"] += 1
        if abs(c - n * p) > 6.5 * math.sqrt(n * max(p * (1 - p), 1e-4)) + 5:
            out.bad("frequency", "%s occurs in %d of %d visits of %s, expected %.1f" % (e, c, n, g[1], n * p))
        if c >= 40 and p > .01:
            ds = np.array([(r["co"] - r["st"]) / 1e6 for r in rows if r["label"] == e])
            sel = mn[tie[k]]
            sd = sel.std() / math.sqrt(c)
            out.obs["winner_means"] += 1
            if abs(ds.mean() - sel.mean()) > 6.5 * sd + .01 + 1e-3 * sel.mean():
                out.bad("frequency", "%s occurs on average after %.3f s at %s, expected %.3f s" % (e, ds.mean(), g[1], sel.mean()))
