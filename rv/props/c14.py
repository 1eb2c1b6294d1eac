"""C14: the resource accounts of the statistics file balance with the event log of the run."""
from .. import batch, kpi, scenario
from ..sim import execute, can_be_empty, short

N = {"quick": 5000, "thorough": 40000}
RULE = ("random resource pools (amounts, shared calendars, idle resources), loads, pauses and batches; for every resource the executions, "
        "the working time and the calendar time between the first start and last completion are recomputed from the log; non-trivial: "
        "several resources with different accounts, one of them worked; distinct by allocation, calendars and loads")
MUST_SEE = ["resources", "idle_resources", "pool_members", "parallel_batches", "sequential_batches", "high_utilization",
            "long_simulations", "shared_calendars"]
ASSUME = ["working time of the items of a parallel batch is spent once"]


def gen(r, tier, i):
    while True:
        if i % 3 == 2:
            sc = batch.gen(r, batch.FAMS, False, ntasks=(1, 2), alts=(1, 2), dur=(0, r.choice([3000, 40000])))
        else:
            p = dict(n=(1, 14), p_event=r.choice([0, .1, .3]), dur=(0, r.choice([100, 4000, 4000, 60000])), resources=(1, 6),
                     load=r.choice([.1, .5, 3, 20]))
            if i % 3 == 1:
                p.update(cals=("full", "night", "random"), n=(10, 40), load=.01)
            sc = scenario.gen(r, **p)
        if i % 5 == 2 or not can_be_empty(sc["tree"]):
            return sc


def judge(sc, out):
    v, res = execute(sc, out)
    compare(sc, v, res, out)
    out.sample = short(sc, res.log)


def compare(sc, v, res, out, worked=None, available=None):
    rows = res.log.rows
    if not rows:
        return
    sec = res.stats.get("Resource Utilization")
    if not sec:
        out.bad("missing", "no resource utilization section")
        return
    got = {}
    for x in sec[1:]:
        d = dict(zip(sec[0], x))
        if d["Resource ID"] in got:
            out.bad("duplicate", "resource %r reported twice" % d["Resource ID"])
        got[d["Resource ID"]] = d
    want = {x["id"]: n for n, x in v.res.items()}
    if set(got) != set(want):
        out.bad("resources", "reported %s, of the scenario %s" % (sorted(set(got) - set(want)), sorted(set(want) - set(got))))
        return
    lo, hi = min(r["st"] for r in rows), max(r["co"] for r in rows)
    if hi - lo > 14 * 86_400e6:
        out.obs["long_simulations"] += 1
    by = {n: [] for n in v.res}
    for r in rows:
        if not r["is_event"]:
            if r["res"] not in by:
                out.bad("unknown", "row by unknown resource %r" % r["res"])
                return
            by[r["res"]].append(r)
    span = sc["json"].get("batch_processing") or []
    for b in span:
        bs, _ = batch.batches(rows, b["task_id"])
        out.obs["%s_batches" % b["type"].lower()] += sum(len(x) > 1 for _, x in bs)
    pools = {p["id"]: p["name"] for p in sc["json"]["resource_profiles"]}
    total = 0
    cals = [x["calendar"] for x in v.res.values()]
    out.obs["shared_calendars"] += len(set(cals)) < len(cals)
    days = (hi - lo) / 86_400e6 + 2
    acc = []
    for rid, n in want.items():
        g, rs, x = got[rid], by[n], v.res[n]
        out.obs["resources"] += 1
        out.obs["idle_resources"] += not rs
        out.obs["pool_members"] += rid != x["pid"]
        if g["Resource name"] != n:
            out.bad("name", "resource %s is named %r, scenario: %r" % (rid, g["Resource name"], n))
        if g["Pool ID"] != x["pool"] or g["Pool name"] != pools[x["pool"]]:
            out.bad("pool", "resource %s reported in pool %r (%r), scenario: %r" % (rid, g["Pool ID"], g["Pool name"], x["pool"]))
        k = int(g["Tasks Allocated"])
        total += k
        if k != len(rs):
            out.bad("allocated", "resource %s: %d tasks allocated, %d executed in the log" % (rid, k, len(rs)))
        w = (worked(n, rs) if worked else kpi.worked(x["cal"], [(r["st"], r["co"]) for r in rs])) / 1e6
        a = (available(n, lo, hi) if available else x["cal"].work(kpi.at(lo), kpi.at(hi))) / 1e6
        gw, ga, gu = float(g["Worked Time (seconds)"]), float(g["Available Time (seconds)"]), float(g["Utilization Ratio"])
        tol = .003 * days + .003 * len(rs)
        if abs(gw - w) > tol:
            out.bad("worked", "resource %s worked %.6f s, according to the log %.6f s" % (rid, gw, w))
        if abs(ga - a) > .003 * days:
            out.bad("available", "resource %s was available %.6f s, its calendar offers %.6f s in the simulated period" % (rid, ga, a))
        if ga > 0 and abs(gu - gw / ga) > 1e-9 * max(1, gu):
            out.bad("quotient", "resource %s: utilization %r of %r / %r" % (rid, gu, gw, ga))
        if gu > 1 + tol / max(ga, 1e-3) + 1e-9:
            out.bad("over-utilized", "resource %s: utilization %r" % (rid, gu))
        if gu > .95:
            out.obs["high_utilization"] += 1
        acc.append((round(w), round(a)))
    if total != sum(not r["is_event"] for r in rows):
        out.bad("total", "%d tasks allocated in total, %d activity rows" % (total, sum(not r["is_event"] for r in rows)))
    if len(set(acc)) > 1:
        out.sig = repr(sorted(acc))
