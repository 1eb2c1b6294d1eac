"""C05: earliest-available assigned resource, and the earliest possible start."""
import datetime as dt
from .. import scenario, model
from ..sim import execute, can_be_empty, short, arrival

N = {"quick": 6000, "thorough": 50000}
RULE = ("random task/resource assignments (same, nested, random, single), loads and calendars; the log is replayed in dispatch order "
        "with an independent availability table per resource; non-trivial: some dispatch had >= 2 assigned resources with different "
        "availability; distinct by assignment matrix and calendars")
MUST_SEE = ["dispatches", "choices_with_distinct_availability", "delayed_by_calendar", "delayed_by_resource", "immediate"]
ASSUME = ["rows are written in dispatch order"]


def gen(r, tier, i):
    p = dict(n=(4, 30), load=r.choice([.05, .2, .5, 1, 3]), resources=(2, 6), depth=3, budget=(2, 8), p_event=.05)
    if i % 3 == 0:
        p.update(dists=["fix", "uniform"], dur=(60, 20000))
    while True:
        sc = scenario.gen(r, **p)
        if not can_be_empty(sc["tree"]):
            return sc


def judge(sc, out):
    v, res = execute(sc, out)
    check(sc, v, res, out)
    out.sample = short(sc, res.log)


def check(sc, v, res, out):
    rows = res.log.rows
    if not rows:
        return
    # the simulation starts with the arrival of case 0
    c0 = [r for r in rows if r["case"] == 0]
    if not c0:
        out.inconclusive = "case 0 executes nothing"
        return
    t0 = min(r["dt"][0] for r in c0)
    off = rows[0]["en"] - us0(rows[0]["dt"][0])
    avail, vague = {}, set()
    for name, x in v.res.items():
        # initially available from the first working instant
        avail[name] = us0(x["cal"].next_work(t0))
        if x["cal"].boundaries_near(t0, 5000):
            vague.add(name)  # the simulation starts at a closing instant: open or closed, both readings are fine
    for r in rows:
        if r["is_event"] or r["label"] not in v.alloc or r["res"] not in v.alloc[r["label"]]:
            continue
        cand = v.alloc[r["label"]]
        a = avail[r["res"]]
        best = min([avail[x] for x in cand if x not in vague] or [a])
        out.obs["dispatches"] += 1
        if len({avail[x] // 10000 for x in cand}) > 1:
            out.obs["choices_with_distinct_availability"] += 1
            out.sig = repr((sorted((t, sorted(q)) for t, q in v.alloc.items()), [c["time_periods"] for c in sc["json"]["resource_calendars"]]))
        if a > best + 5000 and r["res"] not in vague:
            who = [x for x in cand if avail[x] == best and x not in vague][0]
            out.bad("not-earliest", "row %d (%s): given to %r, free %.3f s later than assigned %r" % (
                r["idx"], r["label"], r["res"], (a - best) / 1e6, who))
        base = max(r["en"], a) if r["res"] not in vague else max(r["en"], us0(t0))
        bdt = r["dt"][0] + dt.timedelta(microseconds=base - r["en"])
        cal = v.res[r["res"]]["cal"]
        want = us0(cal.next_work(bdt))
        d = r["st"] - want
        if abs(d) > 5000:
            # closing instant of a period: both "still open" and "already closed" are the same instant up to rounding
            if cal.boundaries_near(bdt, 5000) and abs(r["st"] - us0(cal.next_work(bdt + dt.timedelta(milliseconds=6)))) <= 6500:
                pass
            else:
                out.bad("start-instant", "row %d (%s by %r): starts at %s, but resource and calendar allow %s (off by %.6f s)" % (
                    r["idx"], r["label"], r["res"], r["raw"][3], cal.next_work(bdt), d / 1e6))
        if r["st"] > base + 5000:
            out.obs["delayed_by_calendar"] += 1
        elif a > r["en"]:
            out.obs["delayed_by_resource"] += 1
        else:
            out.obs["immediate"] += 1
        vague.discard(r["res"])
        avail[r["res"]] = r["co"]


def us0(d):
    from ..cal import us
    return us(d.replace(tzinfo=None) - dt.datetime(2001, 1, 1))
