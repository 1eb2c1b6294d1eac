"""C25: statistics and usage warnings reported by a run are true of that run."""
import contextlib, io, json, os, re, shutil
import datetime as dt
from collections import Counter
from .. import scenario, model
from ..run import simulate, quiet
from ..sim import execute, decisions, can_be_empty, shape, short
from . import c08

N = {"quick": 2400, "thorough": 14400}
RULE = ("random models (plain drawings, no silent branches) whose executions of every element and flow are counted on the replay of the log and "
        "compared with the usage warnings; models with branch conditions whose decisions are compared one by one with the warnings on default "
        "flows, fallbacks and ties; the statistics file is read back with the provided loader and compared cell by cell, and the same run "
        "without output files must return the same figures in memory; non-trivial: some usage or condition warning was due; distinct by "
        "the set of warnings")
MUST_SEE = ["rows", "usage_elements", "usage_flows", "less_zero", "less_some", "more", "flow_less", "flow_more", "exact_1", "flow_1_to_2", "boundary_100", "auto_assigned",
            "cond_default", "cond_probabilities", "cond_many", "loaded", "in_memory", "partly_conditioned", "heading_names"]
ASSUME = ["flows never taken are not reported, elements never executed are (the code's reading of 'used less frequently')",
          "models without silent branches (otherwise the counts cannot be read off the log)"]


def gen(r, tier, i):
    if i % 3 == 1:
        while True:
            sc = c08.gen(r, tier, 1)
            if not any("\n" in x for x in sc["names"].values()) and '"undeclared"' not in json.dumps(sc["json"]):
                break
        sc["family"] = "cond"
        return sc
    big = i % 4 == 0
    p = dict(p_event=.12, p_skip=0, p_drawing=0, nasty=0, prio=.2, p_loop_back=r.choice([.05, .3, .6]), depth=3, budget=(2, 8), n=(1, 14))
    if big:
        p.update(n=r.choice([(100, 100), (200, 200), (101, 260), (150, 400)]), budget=(2, 5), dists=["fix"], dur=(0, 100), cals=("full",), arr_cal=("full",))
    while True:
        sc = scenario.gen(r, **p)
        if plain(sc["tree"]):
            break
    if r.random() < .2:
        t = r.choice(model.tasks(sc["tree"]))
        nm = r.choice(["KPI", "Name", "Resource ID", "started_at", "completed_at"])
        sc["bpmn"] = sc["bpmn"].replace('name="%s"' % sc["names"][t], 'name="%s"' % nm)
        sc["names"][t] = nm
        sc["heading_name"] = nm
    for n in model.gateways(sc["tree"]):
        e = next(x for x in sc["json"]["gateway_branching_probabilities"] if x["gateway_id"] == n[1])
        ps = e["probabilities"]
        if big and n[0] != "loop":
            s = r.choice([.005, .01, .015, .02])
            for x in ps:
                x["value"] = s
            ps[0]["value"] = round(1 - s * (len(ps) - 1), 4)
        elif big:
            for x in ps:
                x["value"] = .01 if x["path_id"].endswith("back") else .99
        elif r.random() < .3 and n[0] != "loop":
            for x in r.sample(ps, r.randint(1, len(ps))):
                del x["value"]
        elif r.random() < .3 and n[0] != "loop":
            k = r.randrange(len(ps))
            for q, x in enumerate(ps):
                x["value"] = int(q == k)
    sc["family"] = "usage"
    return sc


def plain(t):
    """no silent branches except the way back of a loop whose body is certain to execute"""
    for n in model.walk(t):
        if n[0] in ("xor", "or", "and") and any(c is None or can_be_empty(c) for c in n[2]):
            return False
        if n[0] == "evg" and any(c is not None and can_be_empty(c) for _, c in n[2]):
            return False
        if n[0] == "loop":
            if can_be_empty(n[2]) or (n[3] is not None and can_be_empty(n[3])):
                return False
            if n[3] is None and any(x[0] in ("or", "and", "loop") for x in model.walk(n[2])):
                return False
    return True


def judge(sc, out):
    v, res = execute(sc, out, keep=True)
    try:
        want = auto(sc, out)
        if sc["family"] == "usage":
            want += usage(sc, v, res, out)
            full = True
        else:
            want += conditions(sc, res, out)
            full = False
        if not out.viol and not out.inconclusive:
            compare(res.warnings or [], want, full, out)
        out.obs["heading_names"] += "heading_name" in sc
        loader(sc, v, res, out)
    finally:
        shutil.rmtree(res.dir, ignore_errors=True)
    memory(sc, v, res, out)
    if any(k[0] != "auto" for k in want):
        out.sig = repr(sorted(map(repr, want)))
    out.sample = dict(short(sc, res.log), warnings=(res.warnings or [])[:8])


PAT = [
    ("flow", re.compile(r"^Flow (?P<f>\S+) from .*\(ID: (?P<e>\S+)\) is used (?P<d>less|more) frequently.*?(?P<k>\d+) out of (?P<n>\d+) cases \((?P<p>[\d.]+)%\)\.$")),
    ("element", re.compile(r"^(?P<t>\S+) '(?P<name>.*)' \(ID: (?P<e>\S+)\) is used (?P<d>less|more) frequently.*?(?P<k>\d+) out of (?P<n>\d+) cases \((?P<p>[\d.]+)%\)\.$")),
    ("auto", re.compile(r"^Gateway (?P<e>\S+) has auto-assigned probabilities for flows: (?P<v>.*)$")),
    ("missing", re.compile(r"^Gateway (?P<e>\S+) is using conditions, but some are missing. Flows without conditions: (?P<v>.*)$")),
    ("default", re.compile(r"^\[(?P<k>XOR|OR)\] (?P<e>\S+) all conditions evaluated to false. Using default path (?P<f>\S+)\.$")),
    ("fallback", re.compile(r"^\[(?P<k>XOR|OR)\] (?P<e>\S+) all conditions evaluated to false and no default path. Using probabilities\.$")),
    ("many", re.compile(r"^(?P<e>\S+) more than 1 XOR gateway conditions evaluated to positive result. Scaled probabilities were used\.$")),
    ("loop", re.compile(r"^Infinite loop was detected in case #(?P<c>\d+) on element (?P<e>\S+)\. Case has been terminated$")),
]


def parse(line):
    for kind, p in PAT:
        m = p.match(line)
        if m is None:
            continue
        g = m.groupdict()
        if kind in ("flow", "element"):
            return (kind, g["e"], g.get("f"), g["d"], int(g["k"]), int(g["n"]), g["p"])
        if kind == "auto":
            return (kind, g["e"], tuple(sorted((a, round(float(b), 9)) for a, b in (x.split(": ") for x in g["v"].split(", ")))))
        if kind == "missing":
            return (kind, g["e"], tuple(sorted(g["v"].split(", "))))
        if kind == "default":
            return (kind, g["k"], g["e"], g["f"])
        if kind == "fallback":
            return (kind, g["k"], g["e"])
        if kind == "many":
            return (kind, g["e"])
        return (kind, g["c"], g["e"])
    return ("?", line)


def compare(lines, want, full, out):
    got = Counter(parse(x) for x in lines)
    exp = Counter(want)
    if not full:  # usage and loop warnings are judged elsewhere
        got = Counter({k: c for k, c in got.items() if k[0] not in ("flow", "element", "loop")})
    for k in sorted(set(got) | set(exp), key=repr):
        if got[k] != exp[k]:
            out.bad("warning", "warning %s: %d times in the file, due %d times" % (k, got[k], exp[k]))


def auto(sc, out):
    want = []
    for e in sc["json"]["gateway_branching_probabilities"]:
        ps = e["probabilities"]
        miss = [x["path_id"] for x in ps if "value" not in x]
        if miss:
            share = (1 - sum(float(x["value"]) for x in ps if "value" in x)) / len(miss)
            want.append(("auto", e["gateway_id"], tuple(sorted((f, round(share, 9)) for f in miss))))
            out.obs["auto_assigned"] += 1
        cond = [x["path_id"] for x in ps if "condition_id" in x]
        rest = [x["path_id"] for x in ps if "condition_id" not in x]
        if cond and rest:
            want.append(("missing", e["gateway_id"], tuple(sorted(rest))))
            out.obs["partly_conditioned"] += 1
    return want


def usage(sc, v, res, out):
    n = sc["n"]
    rows = Counter(r["label"] for r in res.log.rows)
    dec = Counter()
    for c, rs in sorted(res.log.by_case().items()):
        d = decisions(sc, rs)
        if d is None:
            out.bad("unexplained", "case %d is not a timed run of the model (see C01/C02)" % c)
            return []
        for gid, _, _, ch in d[1]:
            for k in ch:
                dec[(gid, k)] += 1
            dec[gid] += 1
    el, fl = {"start": n, "end": n}, {}

    def walk(t, k):
        kind = t[0]
        if kind in ("task", "event"):
            el[t[1]] = rows[t[1]]
        elif kind == "seq":
            for c in t[1]:
                walk(c, k)
        elif kind in ("xor", "or", "and"):
            el[t[1]] = el[t[1] + "_j"] = k
            for i, c in enumerate(t[2]):
                x = k if kind == "and" else dec[(t[1], i)]
                fl["%s_f%d" % (t[1], i)] = x
                walk(c, x)
        elif kind == "loop":
            b = dec[(t[1], 1)]
            fl[t[1] + "_back"], fl[t[1] + "_exit"] = b, k
            el[t[1]] = el[t[1] + "_j"] = k + b
            walk(t[2], k + b)
            if t[3] is not None:
                walk(t[3], b)
        else:
            el[t[1]] = el[t[1] + "_j"] = k
            for i, (ev, c) in enumerate(t[2]):
                el[ev] = rows[ev]
                fl["%s_f%d" % (t[1], i)] = rows[ev]
                if c is not None:
                    walk(c, rows[ev])
    walk(sc["tree"], n)
    import xml.etree.ElementTree as ET
    src = {x.get("id"): x.get("sourceRef") for x in ET.fromstring(sc["bpmn"]).iter() if x.tag.endswith("sequenceFlow")}
    want = []
    out.obs["usage_elements"] += len(el)
    out.obs["boundary_100"] += n >= 100
    for e, k in el.items():
        p = k / n * 100
        if p < 1 or p > 100:
            want.append(("element", e, None, "less" if p < 1 else "more", k, n, "%.2f" % p))
            out.obs["more" if p > 100 else "less_some" if k else "less_zero"] += 1
    for f, s in src.items():
        k = fl.get(f, el[s])
        p = k / n * 100
        out.obs["usage_flows"] += 1
        out.obs["exact_1"] += 100 * k == n
        out.obs["flow_1_to_2"] += 1 < p < 2
        if k and (p < 1 or p > 100):
            want.append(("flow", s, f, "less" if p < 1 else "more", k, n, "%.2f" % p))
            out.obs["flow_more" if p > 100 else "flow_less"] += 1
    return want


def conditions(sc, res, out):
    from .. import attrs
    j = sc["json"]
    nodes = {n[1]: n for n in model.gateways(sc["tree"])}
    ent = {e["gateway_id"]: e for e in j["gateway_branching_probabilities"]}
    rules = {x["id"]: x for x in j.get("branch_rules", [])}
    want = []
    for c, rows in sorted(res.log.by_case().items()):
        d = decisions(sc, rows)
        if d is None:
            out.inconclusive = "terminated case"
            return want
        for gid, dep, t, ch in d[1]:
            cond = {x["path_id"]: rules[x["condition_id"]] for x in ent[gid]["probabilities"] if "condition_id" in x} if gid in nodes else {}
            if not cond:
                continue
            env = rows[0]["attrs"] if dep < 0 else res.log.rows[dep]["attrs"]
            true = [f for f, ru in cond.items() if attrs.holds(ru, env)]
            kind = "OR" if nodes[gid][0] == "or" else "XOR"
            if not true and sc["defaults"].get(gid):
                want.append(("default", kind, gid, sc["defaults"][gid]))
                out.obs["cond_default"] += 1
            elif not true:
                want.append(("fallback", kind, gid))
                out.obs["cond_probabilities"] += 1
            elif len(true) > 1 and kind == "XOR":
                want.append(("many", gid))
                out.obs["cond_many"] += 1
    if any(x.startswith("Infinite loop") for x in res.warnings or []):
        out.inconclusive = "terminated case"
    return want


FIELDS = ["min", "max", "avg", "total"]
PROC = ["cycle_time", "processing_time", "idle_cycle_time", "idle_processing_time", "waiting_time", "idle_time"]
COLS = {"duration": "Duration", "waiting_time": "Waiting Time", "processing_time": "Processing Time", "cycle_time": "Cycle Time", "idle_time": "Idle Time",
        "idle_cycle_time": "Idle Cycle Time", "idle_processing_time": "Idle Processing Time", "cost": "Cost"}
HEAD = {"min": "Min", "max": "Max", "avg": "Avg", "total": "Total"}


def sections(res):
    tab = {}
    for name, key in (("Resource Utilization", "Resource ID"), ("Individual Task Statistics", "Name"), ("Overall Scenario Statistics", "KPI")):
        rows = res.stats[name]
        tab[name] = {x[rows[0].index(key)]: dict(zip(rows[0], x)) for x in rows[1:]}
    return tab


def same(out, what, got, want, tol=1e-9):
    try:
        ok = abs(float(got) - float(want)) <= tol * max(1, abs(float(want)))
    except (TypeError, ValueError):
        ok = False
    if not ok:
        out.bad("figure", "%s is %r, the statistics file says %r" % (what, got, want))


def kpis(out, where, get_task, get_proc, tab):
    for name, row in tab["Individual Task Statistics"].items():
        m = get_task(name)
        if m is None:
            out.bad("missing-task", "%s: no figures for %r" % (where, name))
            continue
        for f, col in COLS.items():
            if f == "duration":
                continue
            k = getattr(m, f)
            same(out, "%s: count of %s of %r" % (where, f, name), k.count, row["Count"])
            for a in FIELDS:
                same(out, "%s: %s %s of %r" % (where, a, f, name), getattr(k, a), row["%s %s" % (HEAD[a], col)])
    for f in PROC:
        row, k = tab["Overall Scenario Statistics"][f], get_proc(f)
        for a, col in (("min", "Min"), ("max", "Max"), ("avg", "Average"), ("total", "Accumulated Value"), ("count", "Trace Ocurrences")):
            same(out, "%s: %s %s of the process" % (where, a, f), getattr(k, a), row[col])


def dates(out, where, a, b, res):
    lo, hi = min(r["dt"][1] for r in res.log.rows), max(r["dt"][2] for r in res.log.rows)
    for what, got, want in (("start", a, lo), ("end", b, hi)):
        if got is None or got.tzinfo is None or abs((got - want).total_seconds()) > 2e-6:
            out.bad("period", "%s: %s of the simulated period is %s, first/last instant in the log: %s" % (where, what, got, want))


def loader(sc, v, res, out):
    from prosimos.simulation_stats import load_diff_simulation_results
    tab = sections(res)
    try:
        with quiet():
            got = load_diff_simulation_results(os.path.join(res.dir, "out", "stats.csv"))
    except Exception as e:
        out.bad("loader-crash", "reading the statistics file fails with %s: %s" % (type(e).__name__, e))
        return
    out.obs["loaded"] += 1
    dates(out, "loader", got.started_at, got.ended_at, res)
    if set(got.tasks_kpi_map) != set(tab["Individual Task Statistics"]):
        out.bad("tasks", "loader: activities %s, in the file %s" % (sorted(got.tasks_kpi_map), sorted(tab["Individual Task Statistics"])))
    kpis(out, "loader", got.tasks_kpi_map.get, lambda f: getattr(got.process_kpi_map, f), tab)
    ru = tab["Resource Utilization"]
    names = {x["Resource name"] for x in ru.values()}
    if set(got.resource_utilization) != names or set(got.resource_info) != names:
        out.bad("resources", "loader: resources %s, in the file %s" % (sorted(got.resource_utilization), sorted(names)))
        return
    pools = {}
    for x in ru.values():
        nm = x["Resource name"]
        same(out, "loader: utilization of %r" % nm, got.resource_utilization[nm], x["Utilization Ratio"])
        same(out, "loader: resource_utilization_for(%r)" % nm, got.resource_utilization_for(nm), x["Utilization Ratio"])
        k, w, a, p = got.resource_info[nm]
        same(out, "loader: tasks of %r" % nm, k, x["Tasks Allocated"])
        same(out, "loader: worked time of %r" % nm, w, x["Worked Time (seconds)"])
        same(out, "loader: available time of %r" % nm, a, x["Available Time (seconds)"])
        if p != x["Pool name"]:
            out.bad("pool", "loader: pool of %r is %r, in the file %r" % (nm, p, x["Pool name"]))
        pools.setdefault((x["Pool ID"], x["Pool name"]), []).append(x)
    if set(got.aggregated_pool_info) != {p for p, _ in pools}:
        out.bad("pools", "loader: pools %s, in the file %s" % (sorted(got.aggregated_pool_info), sorted(pools)))
        return
    for (p, name), xs in pools.items():
        g = got.aggregated_pool_info[p]
        for k, col in ((g.kpi_allocated_tasks, "Tasks Allocated"), (g.kpi_worked_time, "Worked Time (seconds)"), (g.kpi_available_time, "Available Time (seconds)"),
                       (g.kpi_utilization, "Utilization Ratio")):
            val = [z for z in (float(x[col]) for x in xs) if z >= 0]    # a utilization of -1 stands for no available time
            if not val:
                continue
            for a, w in (("count", len(val)), ("total", sum(val)), ("min", min(val)), ("max", max(val)), ("avg", sum(val) / len(val))):
                same(out, "loader: %s of %s in pool %s" % (a, col, p), getattr(k, a), w, 1e-6)
        if g.pool_info.pool_id != p or g.pool_info.pool_name != name:
            out.bad("pool", "loader: pool %s is %r %r" % (p, g.pool_info.pool_id, g.pool_info.pool_name))
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        got.print_simulation_results()
    text = buf.getvalue()
    if "Total instances simulated: %d\n" % sc["n"] not in text:
        out.bad("printed", "the printed results do not report %d simulated instances" % sc["n"])
    lines = text.split("\n")
    for x in ru.values():
        if "\n" in x["Resource name"] or "\t" in x["Resource name"]:
            continue
        cells = [[c.strip() for c in l.strip("| ").split(" | ")] for l in lines if l.startswith("| %s " % x["Resource name"])]
        w = [x["Resource name"].strip(), str(round(float(x["Utilization Ratio"]), 3)), x["Tasks Allocated"]]
        if w not in [c[:3] for c in cells]:
            out.bad("printed", "the printed results lack resource figures %s: %s" % (w, cells))


def memory(sc, v, res, out):
    mem = simulate(sc, want_log=False, want_stats=False)
    tab = sections(res)
    try:
        (proc, tasks, resources, lo, hi), _ = mem.ret
    except (TypeError, ValueError):
        out.bad("in-memory", "a run without output files returned %r" % (mem.ret,))
        return
    out.obs["in_memory"] += 1
    dates(out, "in memory", lo, hi, res)
    ids = {sc["names"][t]: t for t in sc["names"]}
    kpis(out, "in memory", lambda nm: tasks.get(ids.get(nm)), lambda f: getattr(proc, f), tab)
    ru = tab["Resource Utilization"]
    if set(resources) != set(ru):
        out.bad("resources", "in memory: resources %s, in the file %s" % (sorted(resources), sorted(ru)))
        return
    for rid, x in ru.items():
        k = resources[rid]
        same(out, "in memory: tasks of %s" % rid, k.task_allocated, x["Tasks Allocated"])
        same(out, "in memory: worked time of %s" % rid, k.worked_time, x["Worked Time (seconds)"])
        same(out, "in memory: available time of %s" % rid, k.available_time, x["Available Time (seconds)"])
        same(out, "in memory: utilization of %s" % rid, k.utilization, x["Utilization Ratio"])
        if k.r_profile.resource_name != x["Resource name"]:
            out.bad("name", "in memory: resource %s is %r" % (rid, k.r_profile.resource_name))
