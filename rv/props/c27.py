"""C27: what is read back from a simulated log (enabling times, waiting times, arrivals, distances) is true of that log."""
import contextlib, copy, io, math, os, re, shutil
import datetime as dt
from collections import defaultdict
from .. import scenario, model
from ..run import simulate, quiet
from ..sim import execute, shape, short

N = {"quick": 800, "thorough": 12000}
RULE = ("logs written by simulations of random models (sequences, exclusive and parallel blocks, loops over them without parallel blocks inside) are "
        "read back by the log analyses: the enabling time recovered for every activity is compared with the one the simulation logged, the "
        "waiting and processing times and counts per activity with sums over the log, the starting instants with the earliest "
        "starts, and the distances between two logs (rows shuffled) with an independent earth mover's distance; "
        "non-trivial: some activity waited for a join or shared the case with concurrent ones; distinct by model shape")
MUST_SEE = ["rows", "recovered", "after_join", "overlapping", "out_of_order", "kpi_tasks", "printed_tasks", "arrivals", "hour_distances", "trace_distances",
            "zero_distances", "waited"]
ASSUME = ["the arrival of a case is not part of its log: activities enabled by it are judged between the arrival and their start",
          "models without inclusive and event-based gateways, events, and loops around parallel blocks (the replay of those is judged in C23)"]
S = 1000000


def simple(t):
    return not any(n[0] in ("or", "evg", "event") or n[0] == "loop" and any(x[0] == "and" for x in model.walk(n)) for n in model.walk(t))


def gen(r, tier, i):
    while True:
        sc = scenario.gen(r, n=(2, 20) if i % 4 == 0 else (2, 8), p_event=0, p_drawing=.3, nasty=0, load=r.choice([.02, .1, .5]), prio=.1,
                          kinds={"seq": 3, "xor": 1.3, "and": 1.6, "loop": .4})
        if simple(sc["tree"]) and model.tasks(sc["tree"]):
            break
    sc["log_events"] = True
    sc["other"] = {"seed": sc["seed"] + 1, "n": r.randint(2, 9), "start": r.choice([sc["start"], sc["start"]])}
    sc["bin"] = r.choice([60, 900, 3600, 86400])
    sc["what"] = i % 3
    sc["shuffle"] = r.randrange(10 ** 6)
    return sc


def judge(sc, out):
    v, res = execute(sc, out, keep=True)
    oth = None
    try:
        oth = simulate(dict(sc, **sc["other"]), keep=True)
        if not res.log.rows or not oth.log.rows:
            out.inconclusive = "empty log"
            return
        try:
            with quiet():
                enabling(sc, res, out)
                (kpis, summary, arrivals)[sc["what"]](sc, res, out)
                distances(sc, res, oth, out)
        except Exception as e:
            import traceback
            out.bad("crash", "%s: %s @ %s" % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3].strip()))
    finally:
        for x in (res, oth):
            if x is not None:
                shutil.rmtree(x.dir, ignore_errors=True)
    by = res.log.by_case()
    done = {c: {r["co"] for r in rs} for c, rs in by.items()}
    over = any(a["st"] < b["co"] and b["st"] < a["co"] for rs in by.values() for k, a in enumerate(rs) for b in rs[:k])
    out.obs["rows"] += len(res.log.rows)
    out.obs["overlapping"] += over
    out.obs["out_of_order"] += any(a["co"] > b["co"] for rs in by.values() for a, b in zip(rs, rs[1:]))
    out.obs["waited"] += any(r["st"] > r["en"] and r["en"] in done[r["case"]] for r in res.log.rows)
    if over:
        out.sig = shape(sc) + str(sc["n"])
    out.sample = short(sc, res.log)


def path(res):
    return os.path.join(res.dir, "out", "log.csv"), os.path.join(res.dir, "m.bpmn")


def arrival(rows):
    return min(r["en"] for r in rows)


def enabling(sc, res, out):
    from bpdfr_discovery.log_comparison_metrics import compute_enabling_processing_times
    from bpdfr_discovery.log_parser import event_list_from_csv
    from prosimos.simulation_properties_parser import parse_simulation_model
    lp, bp = path(res)
    g = parse_simulation_model(bp)
    by = res.log.by_case()
    wait, proc = {}, {}
    joins = sum(n[0] == "and" for n in model.walk(sc["tree"]))
    ts = event_list_from_csv(lp)
    if sorted(int(t.p_case) for t in ts) != sorted(by):
        out.bad("cases", "cases read: %s, in the log: %s" % (sorted(t.p_case for t in ts), sorted(by)))
        return
    for t in ts:
        rows = by[int(t.p_case)]
        t.sort_by_completion_date(True)
        compute_enabling_processing_times(t, g, wait, proc)
        left = list(rows)
        for e in t.event_list:
            k = [x for x in left if x["act"] == e.task_id and abs((x["dt"][1] - e.started_at).total_seconds()) < 2e-6
                 and abs((x["dt"][2] - e.completed_at).total_seconds()) < 2e-6]
            if not k:
                out.bad("events", "case %s: event %s %s - %s is not in the log" % (t.p_case, e.task_id, e.started_at, e.completed_at))
                return
            # the same activity twice at the same instants: either order
            x = min(k, key=lambda x: abs((x["dt"][0] - e.enabled_at).total_seconds()))
            left.remove(x)
            out.obs["recovered"] += 1
            if x["en"] == arrival(rows):
                ok = (e.enabled_at - x["dt"][0]).total_seconds() > -2e-6 and (e.enabled_at - x["dt"][1]).total_seconds() < 2e-6
            else:
                ok = abs((e.enabled_at - x["dt"][0]).total_seconds()) < 2e-6
                out.obs["after_join"] += joins > 0
            if not ok:
                out.bad("enabling", "case %s, %s started at %s: enabled at %s according to the analysis, %s in the simulation" % (
                    t.p_case, e.task_id, x["dt"][1], e.enabled_at, x["dt"][0]))
                return
            if abs(e.waiting_time - (e.started_at - e.enabled_at).total_seconds()) > 2e-6 or \
                    abs(e.processing_time - (e.completed_at - e.started_at).total_seconds()) > 2e-6:
                out.bad("times", "case %s, %s: waiting %s, processing %s" % (t.p_case, e.task_id, e.waiting_time, e.processing_time))
        if left:
            out.bad("events", "case %s: rows %s were not read" % (t.p_case, [x["act"] for x in left]))


def sums(res):
    """per activity: count, processing, lowest and highest total waiting time (us)"""
    by = res.log.by_case()
    w = defaultdict(lambda: [0, 0, 0, 0])
    for rows in by.values():
        a = arrival(rows)
        for x in rows:
            z = w[x["act"]]
            z[0] += 1
            z[1] += x["co"] - x["st"]
            z[2] += 0 if x["en"] == a else x["st"] - x["en"]
            z[3] += x["st"] - x["en"]
    return w


def kpis(sc, res, out):
    from bpdfr_discovery.log_parser import compute_kpi_times_from_csv_log
    from prosimos.simulation_properties_parser import parse_simulation_model
    lp, bp = path(res)
    got, want = compute_kpi_times_from_csv_log(lp, parse_simulation_model(bp)), sums(res)
    if set(got) != set(want):
        out.bad("kpi-tasks", "activities %s, in the log %s" % (sorted(got), sorted(want)))
        return
    for t, (n, p, lo, hi) in want.items():
        tol = 2e-6 * n + 1e-9 * p / S
        out.obs["kpi_tasks"] += 1
        if got[t][2] != n or abs(got[t][1] - p / S) > tol or not lo / S - tol <= got[t][0] <= hi / S + tol:
            out.bad("kpi", "%s: waiting %s, processing %s, count %s; in the log: waiting %s to %s, processing %s, count %d" % (
                t, *got[t], lo / S, hi / S, p / S, n))


def seconds(text):
    m = re.match(r"^\s*(?:(-?\d+) days?, )?(\d+):(\d\d):(\d\d(?:\.\d+)?)\s*$", text)
    return int(m.group(1) or 0) * 86400 + int(m.group(2)) * 3600 + int(m.group(3)) * 60 + float(m.group(4))


def summary(sc, res, out):
    from prosimos.fuzzy_engine.event_log_analyser import compute_log_statistics
    lp, bp = path(res)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        compute_log_statistics(lp, bp)
    text, want = buf.getvalue(), sums(res)
    if "Total Events: %d\n" % len(res.log.rows) not in text:
        out.bad("printed", "total number of events: %r, %d in the log" % (text[:60], len(res.log.rows)))
    got = {}
    for l in text.split("\n"):
        if l.startswith("| ") and not l.startswith("| Task Name"):
            x = l.strip()[2:-2].rsplit(" | ", 3)
            got[x[0].strip()] = x[1:]
    if set(got) != {t.strip() for t in want}:
        out.bad("printed", "activities %s, in the log %s" % (sorted(got), sorted(want)))
        return
    for t, (n, p, lo, hi) in want.items():
        c, w, q = got[t.strip()]
        out.obs["printed_tasks"] += 1
        w, q = seconds(w), seconds(q)
        if float(c) != n or abs(q - p / S / n) > 4e-6 or not lo / S / n - 4e-6 <= w <= hi / S / n + 4e-6:
            out.bad("printed", "%s: %s; in the log: count %d, mean waiting %s to %s, mean processing %s" % (t, got[t.strip()], n, lo / S / n, hi / S / n, p / S / n))


def arrivals(sc, res, out):
    from prosimos.fuzzy_engine.event_log_analyser import get_starting_datetimes
    sec, first = get_starting_datetimes(path(res)[0])
    want = sorted(min(r["dt"][1] for r in rs) for rs in res.log.by_case().values())
    out.obs["arrivals"] += len(want)
    if len(sec) != len(want) or abs((first - want[0]).total_seconds()) > 2e-6 or \
            any(abs(a - (b - want[0]).total_seconds()) > 1e-4 for a, b in zip(sec, want)):
        out.bad("starts", "first start %s and offsets %s, in the log %s" % (first, sec[:5], want[:5]))


def emd(a, b):
    """earth mover's distance of two samples of integers"""
    xs = sorted(set(a) | set(b))
    ca, cb = defaultdict(int), defaultdict(int)
    for x in a:
        ca[x] += 1
    for x in b:
        cb[x] += 1
    fa = fb = 0
    tot = 0
    for x, y in zip(xs, xs[1:]):
        fa += ca[x]
        fb += cb[x]
        tot += abs(fa * len(b) - fb * len(a)) * (y - x)
    return tot / (len(a) * len(b))


def distances(sc, res, oth, out):
    import pandas as pd
    from bpdfr_discovery import emd_metric as E
    la, lb = (E.read_and_preprocess_log(path(x)[0]) for x in (res, oth))
    sh = la.sample(frac=1, random_state=sc["shuffle"])
    ra, rb = res.log.rows, oth.log.rows
    base = min(x["dt"][1] for x in ra + rb).astimezone(dt.timezone.utc).replace(minute=0, second=0, microsecond=0)
    for f, k in ((E.discretize_to_hour, 3600), (E.discretize_to_minutes, 60), (E.discretize_to_day, 86400)):
        h = lambda rows: [(x["dt"][q] - base) // dt.timedelta(seconds=k) for x in rows for q in (1, 2)]
        want = emd(h(ra), h(rb))
        for l1, l2, w in ((la, lb, want), (lb, sh, want), (la, sh, 0)):
            got = E.absolute_hour_emd(l1, l2, f) if k != 3600 or w else E.absolute_hour_emd(l1, l2)
            out.obs["hour_distances"] += 1
            out.obs["zero_distances"] += w == 0
            if abs(got - w) > 1e-7 * max(1, w):
                out.bad("distance", "distance of the instants in bins of %d s is %s, computed from the logs: %s" % (k, got, w))
    d = lambda res: [max(r["dt"][2] for r in rs) - min(r["dt"][1] for r in rs) for rs in res.log.by_case().values()]
    da, db = d(res), d(oth)
    b = dt.timedelta(seconds=sc["bin"])
    lo = min(da + db)
    want = emd([(x - lo) // b for x in da], [(x - lo) // b for x in db])
    zero = 0
    for l1, l2, w in ((la, lb, want), (lb, sh, want), (la, sh, zero)):
        got = E.trace_duration_emd(l1, l2, pd.Timedelta(seconds=sc["bin"]))
        out.obs["trace_distances"] += 1
        if abs(got - w) > 1e-7 * max(1, w):
            out.bad("distance", "distance of the case durations in bins of %d s is %s, computed from the logs: %s" % (sc["bin"], got, w))
