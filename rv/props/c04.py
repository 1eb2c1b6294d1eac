"""C04: work only in calendar time; working time between start and end equals the sampled duration."""
import collections
from .. import scenario, model, law
from ..cal import us
from ..sim import execute, can_be_empty, short
import datetime as dt

N = {"quick": 6000, "thorough": 40000}
RULE = ("random weekly calendars (office, lunch break, night shift, 24/7, random disjoint periods), start instants in several zones and "
        "durations from seconds to weeks; start instants and working time are recomputed by an independent calendar; non-trivial: "
        "an activity whose execution spans at least one off-duty period; distinct by calendar and number of boundaries crossed")
MUST_SEE = ["rows", "spanning_off_duty", "week_wrap", "durations_fixed", "durations_bounded", "law_tests"]
ASSUME = ["calendar periods of one resource are disjoint, and durations are not exact multiples of its weekly working time "
          "(outside this envelope the third-party calendar class itself misbehaves; it is not part of this repository)"]


def gen(r, tier, i):
    dur = r.choice([(0, 600), (0, 8000), (3600, 100000), (50000, 900000), (0, 60000)])
    p = dict(n=(2, 10), dur=dur, depth=2, budget=(1, 5), cals=("office", "lunch", "night", "random", "random", "random", "full"),
             load=r.choice([.02, .1, .5]), p_event=0)
    if i % 30 == 0:
        p.update(n=(150, 250), budget=(1, 3), resources=(1, 3), dists=["uniform", "expon", "norm", "gamma", "lognorm"])
    return scenario.gen(r, **p)


def judge(sc, out):
    v, res = execute(sc, out)
    check(sc, v, res, out)
    out.sample = short(sc, res.log)


def check(sc, v, res, out, scale=None):
    drawn = collections.defaultdict(list)
    for r in res.log.rows:
        if r["is_event"] or r["label"] is None or r["res"] not in v.res or r["res"] not in v.alloc[r["label"]]:
            continue
        cal = v.res[r["res"]]["cal"]
        lo, hi = scenario.bounds(v.alloc[r["label"]][r["res"]])
        if lo * 1e6 <= 0 and hi <= 0:
            continue
        wk = cal.weekly / 1e6
        if any(abs(x - round(x / wk) * wk) < .01 and x > .01 for x in (lo, hi)):
            continue
        if cal.dist(r["dt"][1]) > 1500:
            out.bad("start-off-duty", "row %d starts at %s, outside the calendar of %r (%.3f s away)" % (
                r["idx"], r["raw"][3], r["res"], cal.dist(r["dt"][1]) / 1e6))
        w = cal.work(r["dt"][1], r["dt"][2]) / 1e6
        el = (r["co"] - r["st"]) / 1e6
        tol = .003 + el * 2e-9 + 1e-3 * (el / 86400 * 0)
        k = "durations_fixed" if lo == hi else "durations_bounded"
        out.obs[k] += 1
        if not lo - tol <= w <= hi + tol:
            out.bad("working-time", "row %d (%s by %r, %s .. %s): working time %.6f s, configured duration [%s, %s]" % (
                r["idx"], r["label"], r["res"], r["raw"][3], r["raw"][4], w, lo, hi))
        if w > .01 and cal.dist(r["dt"][2]) > 1500:
            out.bad("end-off-duty", "row %d ends at %s, outside the calendar of %r" % (r["idx"], r["raw"][4], r["res"]))
        if el - w > 1:
            out.obs["spanning_off_duty"] += 1
            out.sig = repr((cal.iv, int(el // 43200)))
        if el > 7 * 86400:
            out.obs["week_wrap"] += 1
        if scale is None and "batch_processing" not in sc["json"] and sc["json"].get("multitask") is None:
            drawn[(r["label"], r["res"])].append(w)
    for (t, q), xs in drawn.items():
        f = law.of(v.alloc[t][q]) if len(xs) >= 60 else None
        if f is not None:
            out.obs["law_tests"] += 1
            if law.unlike(xs, f) or law.dependent(xs):
                out.bad("law", "the %d durations of %s by %r do not look drawn from %s: %s.." % (len(xs), t, q, v.alloc[t][q], xs[:5]))
