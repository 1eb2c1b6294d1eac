"""C07: arrivals: numbering, arrival calendar, spacing."""
import datetime as dt
import collections
from scipy.stats import binom
from .. import scenario, model, law
from ..cal import us
from ..sim import execute, short, arrival

N = {"quick": 6000, "thorough": 40000}
RULE = ("random arrival distributions or histograms, arrival calendars, start instants and zones, up to 120 cases; the arrival instant of "
        "each case is its first enable time; non-trivial: an arrival postponed by the calendar, or a start outside it; distinct by "
        "calendar, distribution kind and start")
MUST_SEE = ["arrivals", "postponed", "start_outside", "start_inside", "histogram_gaps", "law_tests", "histogram_frequency_tests"]
ASSUME = ["models start with an activity, so that the arrival is visible as an enable time"]


def gen(r, tier, i):
    p = dict(n=(2, 60), depth=1, budget=(1, 2), kinds={"seq": 1}, p_event=0, load=r.choice([.1, 1, 5, 30]), dur=(0, 3000),
             arr_dists=["fix", "uniform", "expon", "norm", "gamma", "lognorm"], arr_cal=("full", "office", "lunch", "night", "random", "random"))
    stat = i % 40 == 0
    if stat:
        # many cases at any hour: the gaps are the drawn values
        p.update(n=(200, 300), arr_cal=("full",), dists=["fix"], dur=(0, 100), load=r.choice([1, 5, 30]), arr_dists=["uniform", "expon", "norm", "gamma", "lognorm"])
    sc = scenario.gen(r, **p)
    sc["stat"] = stat
    if r.random() < .25:
        k = r.randint(1, 5) if not stat else r.randint(2, 5)
        w = sorted([round(r.random(), 3) for _ in range(k - 1)]) + [1.0]
        mids = [round(r.uniform(0, 20000), 1) for _ in range(k)]
        sc["json"]["arrival_time_distribution"] = {"distribution_name": "histogram_sampling",
                                                   "histogram_data": {"cdf": w, "bin_midpoints": mids}}
    return sc


def judge(sc, out):
    v, res = execute(sc, out)
    cal = v.arr
    d = sc["json"]["arrival_time_distribution"]
    by = res.log.by_case()
    if set(by) != set(range(sc["n"])):
        out.bad("numbering", "case ids %s.. instead of 0..%d" % (sorted(by)[:5], sc["n"] - 1))
        return
    arr = [min(by[c], key=lambda r: r["en"]) for c in range(sc["n"])]
    t = [a["dt"][0] for a in arr]
    start = dt.datetime.fromisoformat(sc["start"])
    out.obs["arrivals"] += len(t)
    inside = cal.dist(start) == 0
    out.obs["start_inside" if inside else "start_outside"] += 1
    if t[0].utcoffset() != start.utcoffset():
        out.bad("zone", "log is in zone %s, start instant in %s" % (t[0].utcoffset(), start.utcoffset()))
        return
    if inside:
        if t[0] != start:
            out.bad("first-arrival", "first arrival %s, but the start %s is inside the arrival calendar" % (t[0], start))
    else:
        out.sig = repr((cal.iv, d.get("distribution_name"), sc["start"]))
        if t[0] < start:
            out.bad("first-arrival", "first arrival %s before the start %s" % (t[0], start))
        if cal.dist(t[0]) > 1500:
            out.bad("off-calendar", "first arrival %s outside the arrival calendar" % t[0])
    if d["distribution_name"] == "histogram_sampling":
        gaps, (lo, hi) = sorted(set(d["histogram_data"]["bin_midpoints"])), (None, None)
    else:
        gaps, (lo, hi) = None, scenario.bounds(d)
    ms = dt.timedelta(milliseconds=3)
    if sc.get("stat") and not out.viol:
        g = [us(b - a) / 1e6 for a, b in zip(t, t[1:])]
        what = "the gaps between %d arrivals do not look drawn from %s" % (len(t), d)
        if gaps is None:
            f = law.of(d)
            if f is not None:
                out.obs["law_tests"] += 1
                if law.unlike(g, f) or law.dependent(g):
                    out.bad("law", what)
        else:
            w = collections.Counter()
            for m, p0, p1 in zip(d["histogram_data"]["bin_midpoints"], [0] + d["histogram_data"]["cdf"], d["histogram_data"]["cdf"]):
                w[m] += p1 - p0
            for m, q in w.items():
                k = sum(abs(x - m) < .003 for x in g)
                out.obs["histogram_frequency_tests"] += 1
                if binom.sf(k - 1, len(g), min(1, q + 1e-9)) < law.ALPHA or binom.cdf(k, len(g), max(0, q - 1e-9)) < law.ALPHA:
                    out.bad("frequency", "%s: %s seen %d times, its probability is %s" % (what, m, k, q))
                if law.streaky([abs(x - m) < .003 for x in g]):
                    out.bad("dependence", "%s: %s comes in runs that independent draws do not form" % (what, m))
    for k in range(1, len(t)):
        a, b = t[k - 1], t[k]
        if b < a:
            out.bad("numbering", "case %d arrives before case %d" % (k, k - 1))
            continue
        if cal.dist(b) > 1500:
            out.bad("off-calendar", "case %d arrives at %s outside the arrival calendar" % (k, b))
            continue
        ok = False
        if gaps is not None:
            out.obs["histogram_gaps"] += 1
            for g in gaps:
                x = a + dt.timedelta(seconds=g)
                for y in (x, x + ms, x - ms):
                    if abs(us(cal.next_work(y) - b)) <= 5000:
                        ok = True
        else:
            x, y = a + dt.timedelta(seconds=lo), a + dt.timedelta(seconds=hi)
            # b must be a possible image of [x, y] under "next working moment"
            ok = cal.next_work(x - ms) - ms <= b <= cal.next_work(y + ms) + ms
        if not ok:
            out.bad("spacing", "case %d arrives %s after case %d (%s), distribution %s" % (k, b - a, k - 1, b, d))
        ps = cal.boundaries_near(b, 2000) and cal.dist(b - dt.timedelta(seconds=1)) > 0
        if ps:
            out.obs["postponed"] += 1
            out.sig = repr((cal.iv, d.get("distribution_name"), sc["start"]))
    out.sample = {"start": sc["start"], "arrivals": [str(x) for x in t[:5]], "distribution": d,
                  "calendar": sc["json"]["arrival_time_calendar"]}


def finish(out, obs):
    pass
