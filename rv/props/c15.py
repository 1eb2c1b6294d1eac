"""C15: nothing is lost, duplicated or garbled between the simulation and its log file, whatever outputs are requested."""
import datetime as dt, json, os, shutil
from .. import batch, model, scenario
from ..run import simulate, scratch, seed, quiet, Log, parse_stats
from ..sim import execute, can_be_empty, short, NORES

N = {"quick": 1500, "thorough": 24000}
RULE = ("every scenario is simulated from the same random state with log and statistics, only one of them, none (in-memory result), with "
        "and without intermediate events in the log, from the command line, with fixed arrival times and with other buffer sizes; the "
        "files are compared with each other and, row by row, with the executions the simulator returns in memory; non-trivial: nasty "
        "texts or a flush in the middle of the run; distinct by texts, size and kind of run")
MUST_SEE = ["rows", "event_rows", "without_events", "in_memory_executions", "only_log", "only_stats", "cli_runs", "fixed_arrivals",
            "small_buffers", "exact_multiple_of_buffer", "beyond_default_buffer", "quoted_fields", "line_breaks", "non_ascii",
            "batched_rows"]
ASSUME = ["batch identifiers are random and compared up to renaming"]
TEXTS = ['Check, "fast"', "Über", "a;b,c", "line\nbreak", "crlf\r\nx", "'q'", "日本", "tab\tx", " lead ", "", '"', ",", "None", "0"]


def gen(r, tier, i):
    kind = ["configs", "buffer", "fixed", "cli", "configs", "buffer"][i % 6]
    if i % (150 if tier == "quick" else 250) == 7:
        k = r.choice([9999, 10000, 10001, 10003, 20000, 20001])
        sc = scenario.gen(r, tree=["task", "t1"], n=(k, k), prio=0, dists=["fix"], dur=(0, 10), resources=(1, 4))
        return dict(sc, kind="big")
    while True:
        if i % 5 == 4:
            sc = batch.gen(r, batch.FAMS, False, ntasks=(1, 2), alts=(1, 2), nasty=.7)
        else:
            sc = scenario.gen(r, n=(1, 16), p_event=r.choice([0, .15, .3]), nasty=r.choice([.3, .8]), load=r.choice([.05, .5, 2]))
        if i % 7 == 3 or not can_be_empty(sc["tree"]):
            break
    if r.random() < .6:
        ca = sc["json"].setdefault("case_attributes", [])
        for k in range(r.randint(1, 2)):
            ks = r.sample(TEXTS, r.randint(2, 4))
            ca.append({"name": r.choice(['a,"b" %d', "ünï %d", "x y;%d", "l\n%d"]) % k, "type": "discrete",
                       "values": [{"key": t, "value": 1 / len(ks)} for t in ks]})
    sc["kind"] = kind
    sc["chunk"] = r.choice([1, 2, 3, 5, 7, 50])
    sc["gaps"] = [round(r.uniform(0, 4000), 3) for _ in range(sc["n"])]
    return sc


def norm(text):
    """log text with batch identifiers renamed in order of appearance"""
    import csv, io
    if text is None:
        return None
    rows = list(csv.reader(io.StringIO(text, newline="")))
    if rows and rows[0] and rows[0][-1] == "batch_id":
        ids = {}
        for x in rows[1:]:
            if x and x[-1] not in ("", "None"):
                x[-1] = "B%d" % ids.setdefault(x[-1], len(ids))
    return rows


def judge(sc, out):
    kind = sc["kind"]
    sc = dict(sc, log_events=True)
    v, res = execute(sc, out)
    rows = res.log.rows
    check_text(sc, v, res.log, res.log_text, out)
    out.obs["batched_rows"] += sum(r["attrs"].get("batch_id") not in (None, "", "None") for r in rows)
    base = norm(res.log_text)
    flat = json.dumps(base)
    nasty = False
    for k, t in (("quoted_fields", '"'), ("line_breaks", "\n"), ("non_ascii", None)):
        hit = any((t in f) if t else not f.isascii() for x in base[1:] for f in x)
        out.obs[k] += hit
        nasty |= hit
    if kind == "big":
        if len(rows) != sc["n"]:
            out.bad("lost-or-duplicated", "%d rows of %d cases with one activity each" % (len(rows), sc["n"]))
        if sorted(r["case"] for r in rows) != list(range(sc["n"])):
            out.bad("lost-or-duplicated", "cases of the rows are not 0..%d, each once" % (sc["n"] - 1))
        out.obs["beyond_default_buffer"] += len(rows) > 10000
        out.obs["exact_multiple_of_buffer"] += len(rows) % 10000 == 0
        mem = memory(sc, v, out)
        against(mem, v, rows, out)
        out.sig = "big%d" % sc["n"]
        return
    if kind in ("configs", "buffer"):
        mem = memory(sc, v, out)
        against(mem, v, rows, out)
    if kind == "configs":
        same(base, norm(simulate(sc, want_stats=False).log_text), "only the log is requested", out)
        out.obs["only_log"] += 1
        o = simulate(sc, want_log=False)
        if o.stats_text != res.stats_text:
            out.bad("stats-differ", "statistics differ when only they are requested: " + diff(o.stats_text.splitlines(), res.stats_text.splitlines()))
        out.obs["only_stats"] += 1
        o = simulate(dict(sc, log_events=False))
        same(subset(base, v), norm(o.log_text), "intermediate events are not requested", out, exact="batch_id" not in base[0])
        out.obs["without_events"] += any(r["is_event"] for r in rows)
        if o.stats_text != res.stats_text:
            out.bad("stats-differ", "statistics differ when intermediate events are not logged: " + diff(o.stats_text.splitlines(), res.stats_text.splitlines()))
    elif kind == "buffer":
        import prosimos.simulation_engine as se
        old = se.FileManager
        se.FileManager = lambda size, *a, **k: old(sc["chunk"], *a, **k)
        try:
            o = simulate(sc)
        finally:
            se.FileManager = old
        same(base, norm(o.log_text), "the buffer holds %d rows" % sc["chunk"], out)
        out.obs["small_buffers"] += 1
        out.obs["exact_multiple_of_buffer"] += len(rows) > 0 and len(rows) % sc["chunk"] == 0
    elif kind == "fixed":
        fixed_times(sc, v, out)
    elif kind == "cli":
        cli(sc, v, res, base, out)
    if nasty or kind == "buffer":
        out.sig = kind + str(len(rows)) + repr(sorted({x[1] for x in base[1:]}))
    out.sample = short(sc, res.log)


def check_text(sc, v, log, text, out):
    """header and well-formed rows: texts come out as given"""
    j = sc["json"]
    cols = [a["name"] for a in j.get("case_attributes", [])]
    for c in cols:
        if c not in log.header:
            out.bad("header", "no column for attribute %r" % c)
    vals = {a["name"]: {str(x["key"]) for x in a["values"]} for a in j.get("case_attributes", []) if a["type"] == "discrete"}
    for r in log.rows:
        if r["label"] is None:
            out.bad("garbled", "row %d: activity %r is not in the model" % (r["idx"], r["act"]))
        elif r["is_event"]:
            if r["res"] != NORES:
                out.bad("garbled", "row %d: event by %r" % (r["idx"], r["res"]))
        elif r["res"] not in v.res:
            out.bad("garbled", "row %d: resource %r is not in the scenario" % (r["idx"], r["res"]))
        for c, ok in vals.items():
            if c in log.header and r["attrs"][c] not in ok:
                out.bad("garbled", "row %d: attribute %r has value %r, not one of %s" % (r["idx"], c, r["attrs"][c], sorted(ok)))
        for k in (2, 3, 4):
            x = r["raw"][k]
            if len(x) != 32 or x[10] != " " or x[19] != ".":
                out.bad("garbled", "row %d: instant %r is not written with microseconds and offset" % (r["idx"], x))


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "row %d: %s / %s" % (i, str(x)[:200], str(y)[:200])
    return "%d / %d rows" % (len(a), len(b))


def same(a, b, when, out, exact=True):
    if not exact:
        a, b = [x[:-1] for x in a], [x[:-1] for x in b]
    if a != b:
        out.bad("log-differs", "the log differs when %s: %s" % (when, diff(a, b)))


def subset(base, v):
    return [base[0]] + [x for x in base[1:] if v.label.get(x[1]) not in v.events]


def memory(sc, v, out):
    """executions returned by a run without output files: case -> list of (name, enabled, started, completed, resource)"""
    o = simulate(sc, want_log=False, want_stats=False)
    if o.files:
        out.bad("files", "a run without outputs wrote %s" % o.files)
    _, info = o.ret
    mem = []
    for c, tr in enumerate(info.trace_list):
        lst = []
        for e in tr.event_list:
            r = getattr(e, "resource_id", None)
            lst.append((sc["names"].get(e.task_id), us(e.enabled_datetime), us(e.started_datetime), us(e.completed_datetime),
                        info.sim_setup.resources_map[r].resource_name if r is not None else NORES))
            out.obs["in_memory_executions"] += 1
        mem.append(lst)
    return mem


def us(d):
    from ..cal import us as u
    return u(d.replace(tzinfo=None) - dt.datetime(2001, 1, 1))


def against(mem, v, rows, out):
    by = {}
    for r in rows:
        by.setdefault(r["case"], []).append((r["act"], r["en"], r["st"], r["co"], r["res"]))
    for c in set(by) - set(range(len(mem))):
        out.bad("invented", "rows of case %d, which was not simulated" % c)
    for c, lst in enumerate(mem):
        got = by.get(c, [])
        if got != lst:
            k = next((k for k, (x, y) in enumerate(zip(got, lst)) if x != y), min(len(got), len(lst)))
            out.bad("not-as-executed", "case %d: %d rows, %d executed; number %d is %r in the log, executed: %r" % (
                c, len(got), len(lst), k, (got + [None])[k:][:1], (lst + [None])[k:][:1]))


def fixed_times(sc, v, out):
    t, times = 0.0, []
    for g in sc["gaps"]:
        times.append(t)
        t += g
    texts = []
    for want_log, want_stats in ((True, True), (False, False)):
        o = simulate(sc, want_log=want_log, want_stats=want_stats, fixed=list(times))
        env = o.ret
        lst = env.log_info.trace_list
        if want_log:
            import tempfile
            d = scratch()
            try:
                p = os.path.join(d, "log.csv")
                with open(p, "w", newline="", encoding="utf-8") as f:
                    f.write(o.log_text)
                log = Log(p)
            finally:
                shutil.rmtree(d, ignore_errors=True)
            for r in log.rows:
                r["label"] = v.label.get(r["act"])
                r["is_event"] = r["label"] in v.events
            check_text(sc, v, log, o.log_text, out)
            mem = [[(sc["names"].get(e.task_id), us(e.enabled_datetime), us(e.started_datetime), us(e.completed_datetime),
                     env.sim_setup.resources_map[e.resource_id].resource_name if getattr(e, "resource_id", None) is not None else NORES)
                    for e in tr.event_list] for tr in lst]
            against(mem, v, log.rows, out)
            if not (o.stats and "Overall Scenario Statistics" in o.stats and "Individual Task Statistics" in o.stats):
                out.bad("stats-missing", "no statistics with fixed arrival times")
            if len(lst) != sc["n"]:
                out.bad("lost-or-duplicated", "%d cases simulated for %d fixed arrival times" % (len(lst), sc["n"]))
            s0 = dt.datetime.fromisoformat(sc["start"])
            for c, tr in enumerate(lst):
                if abs((tr.started_at - env.sim_setup.start_datetime).total_seconds() - times[c]) > .001:
                    out.bad("arrival", "case %d arrives %s s after the start, given %s" % (
                        c, (tr.started_at - env.sim_setup.start_datetime).total_seconds(), times[c]))
            texts.append(mem)
        else:
            mem = [[(sc["names"].get(e.task_id), us(e.enabled_datetime), us(e.started_datetime), us(e.completed_datetime),
                     env.sim_setup.resources_map[e.resource_id].resource_name if getattr(e, "resource_id", None) is not None else NORES)
                    for e in tr.event_list] for tr in lst]
            texts.append(mem)
    if texts[0] != texts[1]:
        out.bad("log-differs", "executions with fixed arrival times depend on the requested outputs")
    out.obs["fixed_arrivals"] += 1


def cli(sc, v, res, base, out):
    from click.testing import CliRunner
    from cli.diff_res_bpsim import cli as main
    d = scratch()
    old = os.getcwd()
    try:
        with open(os.path.join(d, "m.bpmn"), "w", encoding="utf-8") as f:
            f.write(sc["bpmn"])
        with open(os.path.join(d, "s.json"), "w") as f:
            json.dump(sc["json"], f)
        os.chdir(d)
        for ev in (None, "True", "False"):
            args = ["start-simulation", "--bpmn_path", "m.bpmn", "--json_path", "s.json", "--total_cases", str(sc["n"]),
                    "--stat_out_path", os.path.join(d, "st.csv"), "--log_out_path", os.path.join(d, "lo.csv"), "--starting_at", sc["start"]]
            if ev:
                args += ["--is_event_added_to_log", ev]
            seed(sc["seed"])
            with quiet():
                x = CliRunner().invoke(main, args)
            if x.exit_code != 0:
                if x.exception is not None and not isinstance(x.exception, SystemExit):
                    raise x.exception
                out.bad("cli", "the command line ended with %s: %s" % (x.exit_code, x.output[-200:]))
                return
            out.obs["cli_runs"] += 1
            got = norm(open(os.path.join(d, "lo.csv"), newline="", encoding="utf-8").read())
            same(base if ev == "True" else subset(base, v), got, "the simulation is started from the command line with "
                 "--is_event_added_to_log %s" % ev, out, exact=ev == "True" or "batch_id" not in base[0])
            st = open(os.path.join(d, "st.csv"), newline="", encoding="utf-8").read()
            if st != res.stats_text:
                out.bad("stats-differ", "statistics differ when started from the command line: " + diff(st.splitlines(), res.stats_text.splitlines()))
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
