"""C12: the items of a batch share one resource and follow the batch type, the priority order and the duration scaling."""
import collections, math
from .. import batch, law, scenario
from ..cal import us
from ..sim import execute, can_be_empty, shape, short

N = {"quick": 6000, "thorough": 50000}
RULE = ("random models with sequential and parallel batches, shared resource pools with calendars and constant or drawn durations; within every "
        "batch the resources, the starts, the order and the worked time of each item are compared with the type, the priorities and the "
        "scaling table; non-trivial: a batch of >= 2 items of one (type, scaling table, size); distinct by those and the model shape")
MUST_SEE = ["parallel_batches", "sequential_batches", "priority_ordered", "scaled_exact_key", "scaled_lower_key", "no_applicable_key",
            "alone_or_single", "calendar_paused_items", "unscaled_table", "different_cases_per_resource", "drawn_durations", "law_tests"]
ASSUME = ["working time is counted with closed calendar periods"]
TOL = 8000


def gen(r, tier, i):
    p = dict(prio=.5, dists=["fix"], arr_dists=["fix", "uniform", "expon"])
    if i % 4 == 1:
        p["resources"] = (1, 2)
    if i % 4 == 2:
        p["dur"] = (0, r.choice([5000, 30000, 200000]))
    if i % 20 == 3:
        p.update(dists=["uniform", "expon", "norm", "gamma", "lognorm"], n=(100, 250), budget=(1, 3), resources=(1, 3))
    while True:
        sc = batch.gen(r, batch.FAMS, False, ntasks=(1, 2), alts=(1, 2), **p)
        if not can_be_empty(sc["tree"]):
            return sc


def factor(b, k):
    """(what the scaling table says for a batch of k items, which entry gave it)"""
    t = {int(x["key"]): float(x["value"]) for x in b["duration_distrib"]}
    if k == 1:
        return 1.0, "single"
    if k in t:
        c, how = t[k], "exact"
    else:
        low = [x for x in t if x < k]
        c, how = (t[max(low)], "lower") if low else (1.0, "none")
    return c * (k if b["type"] == "Parallel" else 1), how


def judge(sc, out):
    v, res = execute(sc, out)
    j = sc["json"]
    rows = res.log.rows
    rules = j.get("prioritisation_rules")
    by = res.log.by_case()
    prio = {c: scenario.case_priority(rules, rs[0]["attrs"]) if rules else math.inf for c, rs in by.items()}
    drawn = collections.defaultdict(list)
    for b in j["batch_processing"]:
        t = b["task_id"]
        bs, alone = batch.batches(rows, t)
        for r in alone:
            out.obs["alone_or_single"] += 1
            duration(v, t, r, 1.0, "executed alone", drawn, out)
        for bid, rs in bs:
            k = len(rs)
            name = "%s batch of %s with %d items (cases %s)" % (b["type"], t, k, [r["case"] for r in rs])
            f, how = factor(b, k)
            if k == 1:
                out.obs["alone_or_single"] += 1
            elif not b["duration_distrib"]:
                out.obs["unscaled_table"] += 1
            else:
                out.obs[{"exact": "scaled_exact_key", "lower": "scaled_lower_key", "none": "no_applicable_key"}[how]] += 1
            who = {r["res"] for r in rs}
            if len(who) != 1:
                out.bad("resources", name + " is executed by several resources: %s" % sorted(who))
                continue
            x = next(iter(who))
            if x not in v.res or x not in v.alloc[t]:
                out.bad("unqualified", name + " is executed by %r, which is not assigned to the activity" % x)
                continue
            cal = v.res[x]["cal"]
            for r in rs:
                duration(v, t, r, f, "in a " + name + ", scaling %s" % b["duration_distrib"], drawn, out)
            if k == 1:
                continue
            out.sig = repr((b["type"], sorted((e["key"], e["value"]) for e in b["duration_distrib"]), k)) + shape(sc)
            out.obs["different_cases_per_resource"] += len({r["case"] for r in rs}) > 1
            if b["type"] == "Parallel":
                out.obs["parallel_batches"] += 1
                if max(r["st"] for r in rs) - min(r["st"] for r in rs) > TOL:
                    out.bad("parallel-start", name + " starts at different instants: %s" % [r["raw"][3] for r in rs])
            else:
                out.obs["sequential_batches"] += 1
                for p, q in zip(rs, rs[1:]):
                    if q["st"] < p["co"] - TOL:
                        out.bad("overlap", name + ": case %d starts at %s, before case %d is completed at %s" % (
                            q["case"], q["raw"][3], p["case"], p["raw"][4]))
                    elif cal.work(p["dt"][2], q["dt"][1]) > TOL:
                        out.bad("gap", name + ": %r pauses within working hours from %s to %s" % (x, p["raw"][4], q["raw"][3]))
                    kp, kq = (prio[p["case"]], p["en"]), (prio[q["case"]], q["en"])
                    if kp[0] != kq[0]:
                        out.obs["priority_ordered"] += 1
                    if kp[0] > kq[0] or kp[0] == kq[0] and kp[1] > kq[1] + TOL:
                        out.bad("order", name + ": case %d (priority %s, enabled %s) is executed before case %d (priority %s, enabled %s)" % (
                            p["case"], kp[0], p["raw"][2], q["case"], kq[0], q["raw"][2]))
    for (t, q), xs in drawn.items():
        g = law.of(v.alloc[t][q]) if len(xs) >= 60 else None
        if g is not None:
            out.obs["law_tests"] += 1
            if law.unlike(xs, g) or law.dependent(xs):
                out.bad("law", "the %d durations of %s by %r divided by their factors do not look drawn from %s: %s.." % (len(xs), t, q, v.alloc[t][q], xs[:6]))
    out.sample = dict(short(sc, res.log), batch_processing=j["batch_processing"])


def duration(v, t, r, f, what, drawn, out):
    d = v.alloc[t].get(r["res"])
    if d is None:
        return
    lo, hi = scenario.bounds(d)
    cal = v.res[r["res"]]["cal"]
    w = cal.work(r["dt"][1], r["dt"][2])
    want = lo * f * 1e6
    if lo < hi and f > 0:
        out.obs["drawn_durations"] += 1
        drawn[(t, r["res"])].append(w / f / 1e6)
        if not want - TOL <= w <= hi * f * 1e6 + TOL:
            out.bad("duration", "row %d (%s by %r) %s: worked %.3f s from %s to %s, possible are %.3f .. %.3f s" % (
                r["idx"], t, r["res"], what, w / 1e6, r["raw"][3], r["raw"][4], want / 1e6, hi * f))
    if lo == hi and abs(w - want) > TOL:
        out.bad("duration", "row %d (%s by %r) %s: worked %.3f s from %s to %s instead of %.3f s" % (
            r["idx"], t, r["res"], what, w / 1e6, r["raw"][3], r["raw"][4], want / 1e6))
    if us(r["dt"][2] - r["dt"][1]) > w + 1000000:
        out.obs["calendar_paused_items"] += 1
