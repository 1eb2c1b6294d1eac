"""C13: activity and process KPIs in the statistics file equal those recomputed from the event log of the run."""
import datetime as dt
from .. import batch, kpi, model, scenario
from ..run import simulate
from ..sim import execute, can_be_empty, shape, short

N = {"quick": 5500, "thorough": 40000}
RULE = ("random scenarios (concurrency, off-duty pauses, intermediate events, batches, several resource costs); every count, minimum, "
        "maximum, average and total of the statistics file is recomputed from the log with independent calendar and interval arithmetic; "
        "non-trivial: some case has overlapping activities and some activity was interrupted; distinct by model shape, calendars and costs")
MUST_SEE = ["activity_kpis", "process_kpis", "cases_with_overlap", "cases_with_nested_intervals", "interrupted_activities",
            "uninterrupted_activities", "intermediate_event_rows", "batched_rows", "activities_with_cost",
            "runs_without_event_rows"]
ASSUME = ["the processing interval of an intermediate event counts as idle processing time of its case, as in the code",
          "the columns 'Duration' of the individual task statistics are not part of the property"]


def gen(r, tier, i):
    while True:
        if i % 4 == 3:
            sc = batch.gen(r, batch.FAMS, False, ntasks=(1, 2), alts=(1, 2), dur=(0, r.choice([3000, 40000])))
        else:
            p = dict(n=(1, 14), p_event=r.choice([0, .1, .3]), dur=(0, r.choice([100, 4000, 4000, 60000])))
            if i % 4 == 1:
                p.update(dists=["fix"], cals=("full",))
            sc = scenario.gen(r, **p)
        if i % 5 == 2 or not can_be_empty(sc["tree"]):
            return sc


def judge(sc, out):
    v, res = execute(sc, out)
    compare(sc, v, res, out)
    if sc["seed"] % 4 == 0 and v.events and any(r["is_event"] for r in res.log.rows):
        # leaving the events out of the log does not leave them out of the statistics
        o = simulate(dict(sc, log_events=False))
        out.obs["runs_without_event_rows"] += 1
        if o.stats_text != res.stats_text:
            a, b = res.stats_text.splitlines(), o.stats_text.splitlines()
            k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            out.bad("events-not-logged", "statistics of the same run without events in the log: %r instead of %r" % (
                b[k:k + 1], a[k:k + 1]))
    out.sample = short(sc, res.log)


def num(out, what, got, want, tol=.02, scale=None):
    try:
        g = float(got)
    except ValueError:
        out.bad("unreadable", "%s is %r" % (what, got))
        return
    if not kpi.close(g, want, scale or want, tol):
        out.bad("kpi", "%s is %s, recomputed from the log: %.6f" % (what, got, want))


def tolerance(rows):
    # closing instants 23:59:59.999 leave at most 1 ms per day open to interpretation
    return sum(0.002 * (1 + (r["co"] - r["st"]) / 86_400e6) for r in rows) + .002


def compare(sc, v, res, out):
    rows = res.log.rows
    st = res.stats
    if not rows:
        return
    # start and end
    lo, hi = min(r["dt"][1] for r in rows), max(r["dt"][2] for r in rows)
    for k, w in (("started_at", lo), ("completed_at", hi)):
        got = [x[1] for s in st.values() for x in s if len(x) == 2 and x[0] == k]
        if len(got) != 1:
            out.bad("missing", "%s appears %d times in the statistics" % (k, len(got)))
        elif abs((dt.datetime.fromisoformat(got[0]) - w).total_seconds()) > .001:
            out.bad("instant", "%s is %s, in the log %s" % (k, got[0], w))
    # activities
    sec = st.get("Individual Task Statistics")
    if not sec:
        out.bad("missing", "no individual task statistics")
        return
    head = sec[0]
    got = {}
    for x in sec[1:]:
        if x[0] in got:
            out.bad("duplicate", "activity %r has two rows in the statistics" % x[0])
        got[x[0]] = dict(zip(head, x))
    by = {}
    for r in rows:
        by.setdefault(r["act"], []).append(r)
    if set(got) != set(by):
        out.bad("activities", "statistics for %s, executed %s" % (sorted(set(got) - set(by)), sorted(set(by) - set(got))))
    for a, rs in by.items():
        if a not in got:
            continue
        g = got[a]
        if int(g["Count"]) != len(rs):
            out.bad("count", "activity %r: count %s, log has %d" % (a, g["Count"], len(rs)))
        if rs[0]["is_event"]:
            out.obs["intermediate_event_rows"] += len(rs)
            continue
        out.obs["batched_rows"] += sum(r["attrs"].get("batch_id") not in (None, "", "None") for r in rs)
        w = kpi.activity(v, rs)
        out.obs["activities_with_cost"] += any(v.res[r["res"]]["cost"] > 0 for r in rs)
        for r in rs:
            out.obs["interrupted_activities" if r["co"] - r["st"] > kpi.worked(v.res[r["res"]]["cal"], [(r["st"], r["co"])]) + 5000
                    else "uninterrupted_activities"] += 1
        each = max(tolerance([r]) for r in rs)
        for k in kpi.NAMES:
            t = .001 if k in ("Waiting Time", "Idle Cycle Time", "Idle Processing Time") else each * (max(v.res[r["res"]]["cost"] for r in rs) / 3600 if k == "Cost" else 1) + 1e-6
            for n, m in (("Min", "min"), ("Max", "max"), ("Avg", "avg"), ("Total", "total")):
                num(out, "%s %s of activity %r" % (n, k, a), g["%s %s" % (n, k)], w[k][m], t * (len(rs) if m == "total" else 1), w[k]["total"])
                out.obs["activity_kpis"] += 1
    # process
    sec = st.get("Overall Scenario Statistics")
    if not sec:
        out.bad("missing", "no overall statistics")
        return
    got = {x[0]: dict(zip(sec[0], x)) for x in sec[1:]}
    cases = res.log.by_case()
    per = []
    overlap = False
    for c in range(sc["n"]):
        rs = cases.get(c, [])
        per.append(kpi.case(v, rs))
        iv = sorted((r["st"], r["co"]) for r in rs)
        if sum(e - s for s, e in iv) > kpi.length(iv) + 1000:
            out.obs["cases_with_overlap"] += 1
            overlap = True
        if any(b[0] >= a[0] and b[1] < a[1] for k, a in enumerate(iv) for b in iv[k + 1:]):
            out.obs["cases_with_nested_intervals"] += 1
    for k in ("cycle_time", "processing_time", "idle_cycle_time", "idle_processing_time", "waiting_time", "idle_time"):
        if k not in got:
            out.bad("missing", "no %s in the overall statistics" % k)
            continue
        g, w = got[k], kpi.agg([p[k] for p in per])
        each = max([tolerance(rs) for rs in cases.values()]) if k in ("cycle_time", "processing_time", "idle_time") else .002
        for n, m in (("Min", "min"), ("Max", "max"), ("Average", "avg"), ("Accumulated Value", "total")):
            num(out, "%s %s of the process" % (n, k), g[n], w[m], each * (len(per) if m == "total" else 1), w["total"])
            out.obs["process_kpis"] += 1
        if int(g["Trace Ocurrences"]) != sc["n"]:
            out.bad("count", "%s trace occurrences of %d cases" % (g["Trace Ocurrences"], sc["n"]))
    if overlap:
        out.sig = shape(sc) + repr([c["time_periods"] for c in sc["json"]["resource_calendars"]])
