"""C21: fuzzy calendars reduce to ordinary calendars for certain availability."""
import copy, datetime as dt
from .. import batch, kpi, scenario
from ..cal import Cal, DAYS, us
from ..run import SimCrash, simulate
from ..scenario import bounds
from ..sim import can_be_empty, execute, shape, short
from . import c02, c13, c14

N = {"quick": 1200, "thorough": 24000}
RULE = ("random models with weekly tables of availability and workload probabilities per granule (5 to 240 minutes); with certain tables (0 or 1) the "
        "run is judged with, and compared to the run under, the equivalent ordinary calendar, statistics included; with intermediate "
        "ones the work intervals of every execution of an in-memory run are judged; non-trivial: an execution was interrupted by, or "
        "postponed over, a granule without availability; distinct by table, granule and model shape")
MUST_SEE = ["certain_runs", "equal_to_crisp", "intermediate_runs", "interrupted", "postponed", "starts_inside_granule", "overnight_work",
            "work_intervals", "workload_only_granules", "granules_in_hours", "granules_in_seconds", "midnight_periods", "multi_day_periods",
            "idle_resources", "certain_accounts", "expected_availability", "concurrent_work", "frequencies_of_start", "frequencies_of_work"]
ASSUME = ["the granule divides the day and periods are aligned to it; a period ending at midnight ends at 00:00:00",
          "a granule is worked when either of its two probabilities says so"]
TOL = 3


def table(r, g, certain, style):
    k = 1440 // g
    t = []
    for d in range(7):
        row = [0.0] * k
        if style == "office":
            a, b = int(k * r.choice([1 / 4, 1 / 3, 3 / 8])), int(k * r.choice([2 / 3, 3 / 4]))
            for i in range(a, max(b, a + 1)):
                row[i] = 1.0
            if d >= 5 and r.random() < .7:
                row = [0.0] * k
        elif style == "full":
            row = [1.0] * k
        elif style == "night":
            for i in list(range(0, k // 4)) + list(range(k - k // 6, k)):
                row[i] = 1.0
        else:
            p = r.choice([.2, .5, .8])
            run = r.choice([1, 2, 4])
            v = 1.0
            for i in range(k):
                if i % run == 0:
                    v = float(r.random() < p)
                row[i] = v
        t.append(row)
        if d and r.random() < .4:
            t[d] = list(t[d - 1])
    if not any(x for row in t for x in row):
        t[2][k // 2] = 1.0
    if not certain:
        for row in t:
            for i, x in enumerate(row):
                if x and r.random() < .7:
                    row[i] = r.choice([.25, .5, .9, round(r.uniform(.2, 1), 3)])
    return t


def periods(r, t, g):
    """the entries of a table; equal days may be joined, entries are in any order"""
    def clock(i):
        m = (i * g) % 1440
        return "%02d:%02d:00" % divmod(m, 60)
    day = []
    for row in t:
        out, i = [], 0
        while i < len(row):
            j = i
            while j < len(row) and row[j] == row[i] and (r.random() < .97 or j == i):
                j += 1
            if row[i] or r.random() < .2:
                out.append({"beginTime": clock(i), "endTime": clock(j), "probability": row[i]})
            i = j
        day.append(out)
    res, d = [], 0
    while d < 7:
        e = d
        while e < 6 and day[e + 1] == day[d] and r.random() < .8:
            e += 1
        res += [dict({"from": DAYS[d], "to": DAYS[e]}, **x) for x in day[d]]
        d = e + 1
    if r.random() < .5:
        r.shuffle(res)
    return res


def gen(r, tier, i, batched=.2):
    if i % 40 == 7:
        return gen_freq(r)
    certain = i % 2 == 0
    p = dict(n=(1, 12), depth=3, budget=(1, 7), p_event=r.choice([0, .1]), load=r.choice([.1, .5, 3]), dur=(0, r.choice([300, 4000, 30000])),
             nasty=0, prio=.2, arr_cal=("full", "office", "random"))
    if certain:
        p.update(dists=["fix"], arr_dists=["fix"], prio=0)   # random numbers play no part
    while True:
        sc = batch.gen(r, batch.FAMS, False, **dict(p, n=(2, 12))) if r.random() < batched else scenario.gen(r, **p)
        if not can_be_empty(sc["tree"]):
            break
    j = sc["json"]
    if certain:
        # the gateways must not depend on random numbers, which the two kinds of calendar draw differently
        for q in j["gateway_branching_probabilities"]:
            fl = q["probabilities"]
            k = next((x for x in fl if x["path_id"].endswith("_exit")), None) or r.choice(fl)
            for x in fl:
                x["value"] = float(x is k)
    if certain and r.random() < .5:
        for t in j["task_resource_distribution"]:
            for x in t["resources"]:
                for q in x["distribution_params"]:
                    q["value"] = round(q["value"])
    g = r.choice([5, 15, 30, 60, 60, 60, 120, 240])
    unit = r.choice([("MINUTES", g)] * 2 + ([("HOURS", g // 60)] if g % 60 == 0 else []) + [("SECONDS", g * 60)])
    j["model_type"] = "FUZZY"
    j["granule_size"] = {"value": unit[1], "time_unit": unit[0]}
    out, tabs = [], {}
    for c in j["resource_calendars"]:
        style = r.choice(["office", "full", "night", "random"])
        a = table(r, g, certain, style)
        w = r.choice(["same", "none", "part", "other"])
        if w == "same":
            b = a
        elif w == "none":
            b = [[0.0] * len(x) for x in a]
        elif w == "part":
            b = [[x if r.random() < .5 else 0.0 for x in row] for row in a]
        else:
            b = table(r, g, certain, r.choice(["office", "random"]))
        tabs[c["id"]] = {"a": a, "b": b, "w": w}
        out.append({"id": c["id"], "name": c["id"], "time_periods": periods(r, a, g), "workload_ratio": periods(r, b, g)})
    j["resource_calendars"] = out
    return {"kind": "certain" if certain else "work", "sc": sc, "g": g, "tabs": tabs}


def gen_freq(r):
    """one activity of many granules performed again and again, by resources that are usually free"""
    starts = r.random() < .5                 # many short activities: the granules that end a wait
    n = r.choice([500, 700]) if starts else r.choice([150, 250])
    sc = scenario.gen(r, tree=["task", "t1"], n=(n, n), dists=["fix"], arr_dists=["fix"], dur=(10, 10), prio=0, nasty=0, p_big=0,
                      arr_cal=("full",), resources=(1, 1), p_event=0, p_drawing=0)
    g = r.choice([5, 15, 30, 60])
    k = 1440 // g
    j = sc["json"]
    low = r.choice([.2, .35, .5, .5, .75])
    pairs = [(low, 0.0), (0.0, round(r.uniform(.2, .9), 2)), (round(r.uniform(.1, .6), 2), round(r.uniform(.1, .6), 2))]
    if starts:
        pairs = [r.choice(pairs)]
    pick = [[r.choice(pairs) for _ in range(k)] for _ in range(7)]
    j["model_type"] = "FUZZY"
    j["granule_size"] = {"value": g, "time_unit": "MINUTES"}
    j["arrival_time_distribution"] = {"distribution_name": "fix", "distribution_params": [{"value": g * 60 * r.choice([40, 60]) + r.uniform(1, 59)}]}
    for t in j["task_resource_distribution"]:
        for x in t["resources"]:
            x["distribution_name"] = "fix"
            x["distribution_params"] = [{"value": g * 60 * (.4 if starts else r.choice([4, 8, 8.5]))}]
    tabs, out = {}, []
    for c in j["resource_calendars"]:
        a, b = ([[x[q] for x in row] for row in pick] for q in (0, 1))
        tabs[c["id"]] = {"a": a, "b": b, "w": "other"}
        out.append({"id": c["id"], "name": c["id"], "time_periods": periods(r, a, g), "workload_ratio": periods(r, b, g)})
    j["resource_calendars"] = out
    return {"kind": "freq", "sc": sc, "g": g, "tabs": tabs}


def slot(d, g):
    return d.weekday(), (d.hour * 60 + d.minute) // g


def freq(p, out):
    """after the first granule, granules are worked (and waiting ends) as often as their probability says"""
    sc, g = p["sc"], p["g"]
    v = scenario.View(sc)
    try:
        mem = simulate(sc, want_log=False, want_stats=False)
    except SimCrash as e:
        out.bad("crash", str(e))
        return
    eff = {k: [[1 - (1 - x) * (1 - y) for x, y in zip(ra, rb)] for ra, rb in zip(t["a"], t["b"])] for k, t in p["tabs"].items()}
    calendar = {x["id"]: eff[x["calendar"]] for x in v.res.values()}
    trials = {}

    def see(what, q, x):
        if 0 < q < 1:
            trials.setdefault((what, round(q, 4)), []).append((q, x))
            trials.setdefault((what, "all"), []).append((q, x))
    busy = {}
    step = dt.timedelta(minutes=g)

    def floor(d):
        return d.replace(hour=0, minute=0, second=0, microsecond=0) + dt.timedelta(minutes=((d.hour * 60 + d.minute) // g) * g)
    evs = sorted((ev for tr in mem.ret[1].trace_list for ev in tr.event_list if ev.worked_intervals), key=lambda e: e.started_datetime)
    for ev in evs:
        tab = calendar[ev.resource_id]
        free = busy.get(ev.resource_id)
        st, en = ev.started_datetime, ev.enabled_datetime
        if (free is None or free <= en) and floor(st) > floor(en):
            x = floor(en) + step
            while x <= floor(st):
                d, q = slot(x, g)
                see("start", tab[d][q], x == floor(st))
                x += step
        worked = {floor(i.start) for i in ev.worked_intervals if i.end > i.start}
        x = floor(st) + step
        end = max(worked)
        while x <= end:
            d, q = slot(x, g)
            see("work", tab[d][q], x in worked)
            x += step
        busy[ev.resource_id] = max(ev.completed_datetime, free or ev.completed_datetime)
    for (what, q), xs in sorted(trials.items(), key=str):
        var = sum(y * (1 - y) for y, _ in xs)
        dev = sum(x for _, x in xs) - sum(y for y, _ in xs)
        if var >= 12:
            out.obs["frequencies_of_" + what] += 1
            if abs(dev) > 6 * var ** .5 + 3:
                out.bad("frequency", "%s: %d of %d granules of probability %s are used, expected %.1f" % (
                    {"start": "waiting for a resource", "work": "working"}[what], sum(x for _, x in xs), len(xs), q, sum(y for y, _ in xs)))
    out.obs["granules_drawn"] += sum(len(x) for (_, q), x in trials.items() if q == "all")
    out.sig = "freq|%d|%s" % (g, sorted(t["w"] for t in p["tabs"].values()))


def crisp(tab, g):
    """ordinary periods of the granules that are worked for certain"""
    res = []
    for d, (a, b) in enumerate(zip(tab["a"], tab["b"])):
        on = [x or y for x, y in zip(a, b)]
        i = 0
        while i < len(on):
            if not on[i]:
                i += 1
                continue
            k = i
            while k < len(on) and on[k]:
                k += 1
            e = k * g
            res.append({"from": DAYS[d], "to": DAYS[d], "beginTime": "%02d:%02d:00" % divmod(i * g, 60),
                        "endTime": "23:59:59.999999" if e == 1440 else "%02d:%02d:00" % divmod(e, 60)})
            i = k
    return res


def features(p, out):
    j = p["sc"]["json"]
    out.obs["granules_in_hours"] += j["granule_size"]["time_unit"] == "HOURS"
    out.obs["granules_in_seconds"] += j["granule_size"]["time_unit"] == "SECONDS"
    for c in j["resource_calendars"]:
        for x in c["time_periods"] + c["workload_ratio"]:
            out.obs["midnight_periods"] += x["endTime"] == "00:00:00"
            out.obs["multi_day_periods"] += x["from"] != x["to"]
    for t in p["tabs"].values():
        out.obs["workload_only_granules"] += sum(bool(y and not x) for ra, rb in zip(t["a"], t["b"]) for x, y in zip(ra, rb))


def judge(p, out):
    {"certain": certain, "work": work, "freq": freq}[p["kind"]](p, out)


def certain(p, out):
    sc = p["sc"]
    cal = {k: crisp(t, p["g"]) for k, t in p["tabs"].items()}
    tw = dict(sc, json=copy.deepcopy(sc["json"]))
    tw["json"].pop("model_type")
    tw["json"].pop("granule_size")
    tw["json"]["resource_calendars"] = [{"id": k, "name": k, "time_periods": x} for k, x in cal.items()]
    v, res = execute(sc, out)
    for x in v.res.values():
        x["cal"] = Cal(cal[x["calendar"]])
    features(p, out)
    rows = res.log.rows
    odd = 0
    for r in rows:
        if r["is_event"] or r["label"] is None or r["res"] not in v.res:
            continue
        c = v.res[r["res"]]["cal"]
        st, co = kpi.at(r["st"]), kpi.at(r["co"])
        if c.dist(st) > TOL:
            out.bad("start", "row %d starts at %s, %.6f s from any granule of probability 1 of %r" % (r["idx"], st, c.dist(st) / 1e6, r["res"]))
        if r["co"] > r["st"] and c.dist(co) > TOL:
            out.bad("completion", "row %d completes at %s, outside the granules of probability 1 of %r" % (r["idx"], co, r["res"]))
        span = (r["co"] - r["st"]) - c.work(st, co)
        odd += span > 60e6
        out.obs["interrupted"] += span > 60e6
        out.obs["overnight_work"] += st.date() != co.date()
        out.obs["postponed"] += c.dist(kpi.at(r["en"])) > 1e6
        out.obs["starts_inside_granule"] += bool(us(st - dt.datetime(2001, 1, 1)) % (p["g"] * 60_000_000))
    if not sc["json"].get("batch_processing"):
        c02.check(sc, v, res, out)
    other = execute(tw, out)[1]
    a, b = rows, other.log.rows
    if out.viol:
        return
    for i, (x, y) in enumerate(zip(a + [None], b + [None])):
        if x is None and y is None:
            break
        if x is None or y is None or x["raw"][:2] != y["raw"][:2] or x["res"] != y["res"] or \
                abs(x["en"] - y["en"]) > 20_000 or any(abs(x[k] - y[k]) > 20_000 and not idle(v, x, y, k) for k in ("st", "co")):
            if len(a) == len(b) and sorted(near(z) for z in a) == sorted(near(z) for z in b):
                out.inconclusive = "rows of equal instants in another order"
                return
            if x and y and x["raw"][:2] == y["raw"][:2] and x["res"] != y["res"] and abs(x["st"] - y["st"]) <= 20_000:
                out.inconclusive = "another of several free resources"
                return
            if x and y and x["raw"][:2] != y["raw"][:2] and abs(x["en"] - y["en"]) <= 20_000:
                out.inconclusive = "another of several executions enabled at one instant"
                return
            # a microsecond may move a choice made at the instant a granule ends
            if i and any(z["raw"][2:5] != w["raw"][2:5] for z, w in zip(a[:i], b[:i])):
                out.inconclusive = "rounding moved a later choice"
                return
            out.bad("twin", "row %d under the fuzzy calendar %s, under the equivalent ordinary one %s" % (i, x and x["raw"][:6], y and y["raw"][:6]))
            return
    out.obs["equal_to_crisp"] += 1
    # accounts and times
    c13.compare(sc, v, res, out)
    c14.compare(sc, v, res, out)
    out.obs["certain_accounts"] += 1
    out.obs["idle_resources"] += len(set(v.res) - {r["res"] for r in rows}) > 0
    out.obs["certain_runs"] += 1
    out.sig = None
    if odd:
        out.sig = "certain|%d|%s|%s" % (p["g"], shape(sc), sorted(t["w"] for t in p["tabs"].values()))
        out.sample = short(sc, res.log)


def idle(v, x, y, k):
    """the instants differ by time without work: an ordinary calendar still counts the instant it closes"""
    if x["is_event"] or x["res"] not in v.res:
        return False
    c = v.res[x["res"]]["cal"]
    a, b = sorted((x[k], y[k]))
    return c.work(kpi.at(a), kpi.at(b)) <= 20_000 and c.boundaries_near(kpi.at(a), 20_000)


def near(r):
    return (r["raw"][0], r["act"], r["res"], round(r["st"] / 1e5), round(r["co"] / 1e5))


def pieces_of(s, e, g):
    """(weekday, granule, start, end) of the granules [s, e] touches"""
    while s < e:
        m = s.hour * 60 + s.minute
        base = s.replace(hour=0, minute=0, second=0, microsecond=0)
        nxt = base + dt.timedelta(minutes=(m // g + 1) * g)
        yield s.weekday(), m // g, s, min(e, nxt)
        s = nxt


def work(p, out):
    sc, g = p["sc"], p["g"]
    v, res = execute(sc, out)
    features(p, out)
    try:
        mem = simulate(sc, want_log=False, want_stats=False)
    except SimCrash as e:
        out.bad("crash", "without output files: " + str(e))
        return
    eff = {k: [[1 - (1 - x) * (1 - y) for x, y in zip(ra, rb)] for ra, rb in zip(t["a"], t["b"])] for k, t in p["tabs"].items()}
    calendar = {x["id"]: eff[x["calendar"]] for x in v.res.values()}
    dists = {(t, v.res[n]["id"]): d for t, m in v.alloc.items() for n, d in m.items()}
    seen, odd = [], 0
    for tr in mem.ret[1].trace_list:
        for ev in tr.event_list:
            if not ev.worked_intervals and not getattr(ev, "ideal_duration", 0):
                continue
            iv = sorted((x.start, x.end) for x in ev.worked_intervals)
            tab = calendar[ev.resource_id]
            what = "case %s, %s by %s (%s to %s)" % (ev.p_case, ev.task_id, ev.resource_id, ev.started_datetime, ev.completed_datetime)
            total, last = 0, None
            for s, e in iv:
                if e < s or last and s < last:
                    out.bad("overlap", "%s: work intervals overlap: %s" % (what, show(iv)))
                    return
                last = e
                total += us(e - s)
                out.obs["work_intervals"] += 1
                for d, q, x, y in pieces_of(s, e, g):
                    if tab[d][q] == 0 and us(y - x) > TOL + len(iv):
                        out.bad("unavailable", "%s: works %s to %s in a granule of probability 0" % (what, x, y))
                        return
            if iv and (us(ev.started_datetime - iv[0][0]) > TOL or us(iv[-1][1] - ev.completed_datetime) > TOL + len(iv)):
                out.bad("outside", "%s: works outside: %s" % (what, show(iv)))
            if iv and us(ev.completed_datetime - iv[-1][1]) > TOL + len(iv):
                out.bad("late", "%s: completes after its last work interval: %s" % (what, show(iv)))
            if abs(total - ev.ideal_duration * 1e6) > TOL + len(iv):
                out.bad("sum", "%s: worked %.6f s of the sampled %.6f s: %s" % (what, total / 1e6, ev.ideal_duration, show(iv)))
            lo, hi = bounds(dists[(ev.task_id, ev.resource_id)])
            if ev.batch_id is None and not (lo * 1e6 - TOL - len(iv) <= total <= hi * 1e6 + TOL + len(iv)):
                out.bad("duration", "%s: worked %.6f s, outside of the distribution" % (what, total / 1e6))
            if len(iv) > 1 and any(us(b[0] - a[1]) > 1000 for a, b in zip(iv, iv[1:])) :
                odd += 1
                out.obs["interrupted"] += 1
            d = ev.started_datetime
            q = (d.hour * 60 + d.minute) // g
            if tab[d.weekday()][q] == 0:
                out.bad("start", "%s: starts in a granule of probability 0" % what)
            if us(ev.started_datetime - ev.enabled_datetime) > 1e6:
                out.obs["postponed"] += 1
            seen.append((ev.p_case, round(us(ev.started_datetime.replace(tzinfo=None) - dt.datetime(2001, 1, 1)))))
    accounts(mem, v, eff, g, res, out)
    logged = sorted((r["case"], r["st"]) for r in res.log.rows if not r["is_event"] and r["co"] > r["st"])
    if sorted(s for s in seen if s in set(logged)) != logged and not out.viol:
        out.bad("memory", "the run without outputs has other executions than the logged one")
    if not sc["json"].get("batch_processing"):
        c02.check(sc, v, res, out)
    out.obs["intermediate_runs"] += 1
    out.sig = None
    if odd:
        out.sig = "work|%d|%s|%s" % (p["g"], shape(sc), sorted(t["w"] for t in p["tabs"].values()))
        out.sample = short(sc, res.log)


def accounts(mem, v, eff, g, res, out):
    """available time: all work performed, and the expected availability of the remaining granules"""
    info = mem.ret[1]
    work = {}
    for tr in info.trace_list:
        for ev in tr.event_list:
            work.setdefault(ev.resource_id, []).extend((us(i.start - info.started_at), us(i.end - info.started_at)) for i in ev.worked_intervals)
    sec = res.stats.get("Resource Utilization") or [[]]
    stated = {x[0]: dict(zip(sec[0], x)) for x in sec[1:]}
    end = us(info.ended_at - info.started_at)
    for x in v.res.values():
        iv = kpi.union(work.get(x["id"], []))
        out.obs["concurrent_work"] += sum(e - s for s, e in work.get(x["id"], [])) > kpi.length(iv) + 1000
        want, last = 0.0, 0
        for s, e in iv + [[end, end]]:
            if s > last:
                for d, q, a, b in pieces_of(info.started_at + dt.timedelta(microseconds=last), info.started_at + dt.timedelta(microseconds=s), g):
                    want += us(b - a) * eff[x["calendar"]][d][q]
            want += e - s
            last = e
        tol = .01 + (len(iv) + end / (g * 60e6)) * 5e-6
        for where, got in (("in memory", mem.ret[0][2][x["id"]].available_time), ("in the statistics", stated.get(x["id"], {}).get("Available Time (seconds)"))):
            if got is None or abs(float(got) - want / 1e6) > tol:
                out.bad("available", "available time of %s %s: %s, expected %.6f" % (x["id"], where, got, want / 1e6))
        out.obs["expected_availability"] += 1


def show(iv):
    return " ".join("%s..%s" % (a, b) for a, b in iv[:6])
