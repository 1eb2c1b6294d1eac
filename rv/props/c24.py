"""C24: discovery turns a usable log into a faithful, complete scenario the simulator runs; unusable input is refused."""
import csv, json, math, os, shutil
import datetime as dt
from collections import Counter, defaultdict
from .. import model, scenario
from ..cal import Cal
from ..run import quiet, scratch, simulate
from ..sim import can_be_empty
from . import c23

N = {"quick": 3600, "thorough": 40000}
RULE = ("random models with event logs played out from them, read from CSV or (stand-in reader) XES, clean or with unmatched, incomplete, start / end "
        "and foreign rows, unsorted rows, other column orders and timestamp formats, discovered with random granules, thresholds and fitting "
        "options; the written scenario is compared with the log and simulated again; about 15 % of the inputs are unusable and have to be refused; "
        "distinct by tree shape, parameters and log size")
MUST_SEE = ["csv", "xes_ids", "xes_names", "joint", "own", "lost", "coverage_partial", "coverage_full", "fit_resource", "fit_aggregated", "fit_fix",
            "fit_expon", "fit_norm", "fit_uniform", "fit_lognorm", "histogram", "outliers", "events", "reruns", "command_line"]
ASSUME = ["at least two cases, timestamps in or converted to UTC, the same activity does not overlap itself within a case",
          "pm4py is not installed: XES logs are handed over by a stand-in for its reader",
          "events missed by the calendars of their resource count as covered when some joint calendar covers them (a necessary condition)"]


HEADS = [["case_id", "activity", "resource", "start_time", "end_time"],
         ["Case ID", "Activity", "Resource", "Start Timestamp", "End Timestamp"],
         ["caseid", "ACTIVITY NAME", "Resource Name", "start", "end"],
         ["case:concept:name", "activity", "org:resource", "start_timestamp", "end_timestamp"]]
BAD = ["granule", "threshold", "bpmn", "column", "nofile", "empty", "timestamp", "foreign", "majority", "resource"]
DIRT = ["format", "blanks", "unmatched", "foreign_case", "start_end", "incomplete", "shuffle", "header", "orphan", "half"]


MUST_SEE += ["dirt_" + k for k in DIRT] + ["refused_" + k for k in BAD]


def gen(r, tier, i):
    while True:
        g = model.Gen(r, dict(kinds={"seq": 3, "xor": 2, "and": 1, "loop": .7, "leaf": .5}, p_skip=r.choice([0, .2]), p_event=r.choice([0, 0, .3]), max_branch=3))
        t = g.tree(r.randint(1, 7), 3)
        if not can_be_empty(t) and c23.ok(t):
            break
    ids, evs = model.tasks(t), model.events(t)
    names = scenario.names_for(r, ids + evs, .15)
    names = {k: v.strip() or k for k, v in names.items()}
    d = model.Drawing(t, names, r)
    bias = {n[1]: [r.choice([0, 1, 1, 2, 5]) or 1 for _ in n[2]] for n in model.gateways(t, ("xor",))}
    back = r.choice([0, .2, .4])
    pool = ["R%d" % k for k in range(1, r.randint(2, 8))]
    who = {k: r.sample(pool, r.randint(1, min(3, len(pool)))) for k in ids}
    own = r.random() < .2  # events performed by a resource of the log
    who.update({k: [r.choice(pool)] if own else [""] for k in evs})
    ncase = r.choice([2, 3, 8, 20, 40])
    start = dt.datetime(2023, r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), tzinfo=dt.timezone.utc)
    want = Counter()
    rows = []
    at = start
    for c in range(ncase):
        at += dt.timedelta(seconds=r.choice([r.randint(1, 600), r.randint(1, 20000), 3600]))
        ev = []
        while True:
            ev, w = [], Counter()
            c23.play(r, t, back, bias, w, 0, ev)
            if len(ev) <= 40:
                break
        want += w
        for a, s, e in ev:
            rows.append([str(c), names[a], r.choice(who[a]), (at + dt.timedelta(seconds=s)).isoformat(" "), (at + dt.timedelta(seconds=e)).isoformat(" ")])
    par = dict(granule=r.choice([15, 30, 60, 60, 5, 1, 20]), conf=r.choice([0, .1, .1, .5, .9, 1]), supp=r.choice([0, .1, .5, .9, 1]),
               part=r.choice([0, .2, .4, .6, 1]), fit=r.random() < .5, min_bin=r.choice([1, 3, 50]), observed=r.random() < .2)
    par["granule"] = r.choice([1, 5, 15, 15, 20, 30, 30, 60, 60, 60, 45, 90, 120, 480, 1440])
    head, cols = HEADS[0], [0, 1, 2, 3, 4]
    lines = [list(x) for x in rows]
    dirt = r.sample(DIRT, r.choice([0, 0, 1, 1, 2, 3]))
    if len(lines) < 8:
        dirt = [k for k in dirt if k not in ("unmatched", "foreign_case", "start_end", "incomplete", "orphan")]
    if not ids:
        dirt = [k for k in dirt if k != "orphan"]
    budget = len(lines) // 3
    for k in sorted(dirt, key=DIRT.index):
        if k == "shuffle":
            r.shuffle(lines)
        elif k == "header":
            head = r.choice(HEADS)
        elif k == "format":
            f = r.choice([lambda x: x.astimezone(dt.timezone(dt.timedelta(hours=3))).isoformat("T"), lambda x: x.strftime("%Y-%m-%dT%H:%M:%SZ"),
                          lambda x: x.strftime("%Y-%m-%d %H:%M:%S"), lambda x: x.strftime("%Y-%m-%d %H:%M:%S.000000+00:00")])
            for x in lines:
                x[3], x[4] = f(dt.datetime.fromisoformat(x[3])), f(dt.datetime.fromisoformat(x[4]))
        elif k == "blanks":
            for x in lines:
                x[1], x[2] = r.choice(["", " "]) + x[1] + r.choice(["", "  "]), r.choice(["", " "]) + x[2]
        elif k == "unmatched":
            for _ in range(r.randint(1, max(1, budget // 2))):
                x = list(r.choice(lines))
                x[1] = "No such activity"
                lines.insert(r.randrange(len(lines) + 1), x)
        elif k == "foreign_case":
            x = list(lines[0])
            x[0], x[1] = "other", "No such activity"
            lines.insert(r.randrange(len(lines) + 1), x)
        elif k == "start_end":
            x, y = list(lines[0]), list(lines[-1])
            x[1], y[1] = "start", "end"
            x[4], y[3] = x[3], y[4]
            lines += [x, y]
        elif k == "orphan":
            x = list(r.choice([y for y in lines if y[0] != "other"]))
            free = [a for a in ids if names[a] not in {y[1] for y in rows}]
            x[1], x[2] = names[r.choice(free or ids)], r.choice(["RX", x[2] or "RX"])
            x[4] = ""
            lines.append(x)
        elif k == "half":
            continue
        elif k == "incomplete":
            for _ in range(r.randint(1, max(1, budget // 2))):
                x = list(r.choice(lines))
                x[r.choice([3, 4])] = ""
                lines.insert(r.randrange(len(lines) + 1), x)
    xes = False
    if r.random() < .25 and not set(dirt) & {"header", "format", "shuffle", "blanks"}:
        xes = r.random() < .5 and "ids" or "names"
    bad = r.choice(BAD) if r.random() < .15 else None
    if bad == "resource" and not any(x[1] not in {names[e] for e in evs} for x in rows):
        bad = "foreign"
    if xes and set(dirt) & {"orphan", "incomplete"}:
        dirt = [k for k in dirt if k != "half"]
    if bad:
        dirt, xes, lines, head = [], False, [list(x) for x in rows], HEADS[0]
    if "half" in dirt or bad == "majority":
        off = sum(x[1] not in names.values() and x[1].strip() not in names.values() or not x[3] or not x[4] for x in lines)
        for _ in range(len(lines) - 2 * off + (bad == "majority")):
            x = list(r.choice(lines))
            x[1] = "No such activity"
            lines.insert(r.randrange(len(lines) + 1), x)
    if bad == "foreign":
        for x in lines:
            x[1] = r.choice(["No such activity", "", "start", "end"])
    elif bad == "resource":
        k = r.choice([x for x in lines if x[1] not in {names[e] for e in evs}])
        k[2] = r.choice(["", " "])
    elif bad == "timestamp":
        r.choice(lines)[r.choice([3, 4])] = r.choice(["yesterday", "25:61", "2023-13-45"])
    elif bad == "column":
        c = r.randrange(5)
        head, lines = [h for k, h in enumerate(head) if k != c], [[h for k, h in enumerate(x) if k != c] for x in lines]
    elif bad == "granule":
        par["granule"] = r.choice([0, -15, 7, 50, 1000, 2880, -1440])
    elif bad == "threshold":
        par[r.choice(["conf", "supp", "part"])] = r.choice([-.1, 1.1, 2, -1, 10])
    if "header" in dirt:
        cols = list(range(5))
        r.shuffle(cols)
        extra = r.random() < .5
        head = [head[c] for c in cols] + ["Comment"] * extra
        lines = [[x[c] for c in cols] + ["x,y"] * extra for x in lines]
    return dict(head=head, lines=lines, dirt=sorted(dirt), tree=t, bpmn=d.xml(), names=names, rows=rows, want=dict(want), par=par, xes=xes, bad=bad, seed=r.randrange(1 << 30), n=ncase)


class Log(list):
    """what the reader of XES logs returns: traces of events"""

    def __init__(self, case, evs):
        super().__init__(evs)
        self.attributes = {"concept:name": case}


def xes(p):
    """the lines as XES traces: events in chronological order, with their lifecycle transition; a line without start (end) lacks that event"""
    import random
    import pandas as pd
    r = random.Random(p["seed"])
    nid = {v: k for k, v in p["names"].items()}
    cases = {}
    for c, a, res, s, e in sorted(p["lines"], key=lambda x: (x[3] or x[4], x[4] or x[3])):
        for state, at in (("start", s), ("complete", e)):
            if at:
                ev = {"concept:name": a, "time:timestamp": pd.Timestamp(at), "lifecycle:transition": state if state == "complete" or r.random() < .7 else "assign"}
                if r.random() < .2:
                    ev["lifecycle:transition"] = ev["lifecycle:transition"].upper()
                if res:
                    ev["org:resource"] = res
                if p["xes"] == "ids" and a in nid:
                    ev["elementId"] = nid[a]
                cases.setdefault(c, []).append(ev)
    traces = [Log(c, sorted(v, key=lambda x: x["time:timestamp"])) for c, v in cases.items()]
    if p["seed"] % 3 == 1:
        for k, v in enumerate(traces):      # events of different activities may be listed in any order
            lists = {}
            for e in v:
                lists.setdefault(e["concept:name"], []).append(e)
            keys = [a for a in lists for _ in lists[a]]
            r.shuffle(keys)
            traces[k] = Log(v.attributes["concept:name"], [lists[a].pop(0) for a in keys])
    if p["seed"] % 2:       # the traces of a log come in any order
        r.shuffle(traces)
    return traces


def pm4py(traces):
    """a stand-in for the XES reader of pm4py, which is not installed here"""
    import sys
    import types
    names = ["pm4py", "pm4py.objects", "pm4py.objects.log", "pm4py.objects.log.importer", "pm4py.objects.log.importer.xes"]
    for n in names:
        sys.modules[n] = types.ModuleType(n)
    sys.modules[names[-1]].importer = types.SimpleNamespace(apply=lambda path: traces)


def discover(p, d):
    import random
    import numpy as np
    from bpdfr_discovery.log_parser import preprocess_xes_log
    bad, q = p["bad"], p["par"]
    bpmn = p["bpmn"]
    if bad == "bpmn":
        bpmn = [bpmn[:len(bpmn) * 2 // 3], "", "not a model", None][p["seed"] % 4]
    if bpmn is not None:
        with open(os.path.join(d, "m.bpmn"), "w", encoding="utf-8") as f:
            f.write(bpmn)
    if bad != "nofile":
        with open(os.path.join(d, "log.csv"), "w", encoding="utf-8", newline="") as f:
            w = csv.writer(f)
            if bad != "empty" or p["seed"] % 2:
                w.writerow(p["head"])
            if bad != "empty":
                w.writerows(p["lines"])
    if p["xes"]:
        pm4py(xes(p))
    random.seed(p["seed"])
    np.random.seed(p["seed"] % 2 ** 32)
    with quiet():
        ret = preprocess_xes_log(os.path.join(d, "log.csv"), os.path.join(d, "m.bpmn"), os.path.join(d, "out", "s.json"), q["granule"], q["conf"],
                                 q["supp"], q["part"], q["fit"], not p["xes"], q["min_bin"], q["observed"])
    with open(os.path.join(d, "out", "s.json")) as f:
        return ret, json.load(f)


def judge(p, out):
    d = scratch()
    if p["bad"]:
        try:
            refused(p, d, out)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return
    try:
        ret, js = discover(p, d)
        faithful(p, js, ret, out)
        if p["xes"]:
            command_line(p, d, out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out.obs["xes_" + p["xes"] if p["xes"] else "csv"] += 1
    for k in p["dirt"]:
        out.obs["dirt_" + k] += 1
    if not out.viol:
        rerun(p, js, out)


def command_line(p, d, out):
    """the command line discovers what the function does with the same parameters, or the documented ones for options left out"""
    import random
    import numpy as np
    from click.testing import CliRunner
    from bpdfr_discovery.log_parser import preprocess_xes_log
    from cli.diff_res_bpsim import cli
    r = random.Random(p["seed"])
    paths = [os.path.join(d, x) for x in ("log.csv", "m.bpmn", "cli.json", "fun.json")]
    args = ["discover-simulation-parameters", "--bpmn_path", paths[1], "--log_path", paths[0], "--out_json", paths[2]]
    use = []
    for opt, key, default in (("--granule_size", "granule", 60), ("--conf", "conf", .1), ("--supp", "supp", .7), ("--part", "part", .3)):
        given = r.random() < .7
        use.append(p["par"][key] if given else default)
        if given:
            args += [opt, str(p["par"][key])]
    got = []
    for k in range(2):
        pm4py(xes(p))
        random.seed(p["seed"])
        np.random.seed(p["seed"] % 2 ** 32)
        with quiet():
            if k:
                preprocess_xes_log(paths[0], paths[1], paths[3], *use, True)
            else:
                x = CliRunner().invoke(cli, args)
        if not k and x.exit_code != 0:
            if x.exception is not None and not isinstance(x.exception, SystemExit):
                raise x.exception
            out.bad("cli", "the command line %s ended with %s: %s" % (args[7:], x.exit_code, x.output[-200:]))
            return
        with open(paths[2 + k]) as f:
            got.append(json.load(f))
    out.obs["command_line"] += 1
    for k in sorted(set(got[0]) | set(got[1])):
        if got[0].get(k) != got[1].get(k):
            out.bad("cli", "the command line %s discovers another %s than the function called with %s" % (args[7:], k, use))
            return


def refused(p, d, out):
    from bpdfr_discovery.exceptions import InvalidInputDiscoveryParameters
    from prosimos.exceptions import InvalidBpmnModelException, InvalidLogFileException
    want = {"granule": InvalidInputDiscoveryParameters, "threshold": InvalidInputDiscoveryParameters, "bpmn": InvalidBpmnModelException}
    want = want.get(p["bad"], InvalidLogFileException)
    try:
        discover(p, d)
    except want:
        out.obs["refused_" + p["bad"]] += 1
    except Exception as e:
        out.bad("refusal", "unusable input (%s) raised %s, not %s" % (p["bad"], repr(e)[:200], want.__name__))
    else:
        out.bad("refusal", "unusable input (%s) was accepted, %s expected" % (p["bad"], want.__name__))
    if os.path.exists(os.path.join(d, "out")):
        out.bad("refusal", "unusable input (%s) left files in the output folder" % p["bad"])
    out.sig = repr((p["bad"], c23.shape(p["tree"])))


def ts(x):
    return dt.datetime.fromisoformat(x).astimezone(dt.timezone.utc)


def near(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1, abs(a), abs(b))


def fitted(what, name, params, data, slack, out):
    """parameters of a fitted distribution against the data it was fitted to (each value known up to `slack`)"""
    ps = [x["value"] for x in params]
    n = len(data)
    if not all(isinstance(x, (int, float)) and math.isfinite(x) for x in ps):
        out.bad("parameters", "%s: %s%s" % (what, name, ps))
        return
    mean, lo, hi = sum(data) / n, min(data), max(data)
    var = sum((x - mean) ** 2 for x in data) / n
    tol = slack + 1e-6 * max(1, hi)
    out.obs["fit_" + name] += 1
    if name == "fix":
        k = sum(abs(x - ps[0]) < 5 + 2 * tol for x in data)
        if not (lo - tol <= ps[0] <= hi + tol) or k / n <= .95:
            out.bad("fixed", "%s: fixed value %r, observed %d values in [%r, %r], %d near it" % (what, ps[0], n, lo, hi, k))
        return
    if name == "expon":
        want = [mean, lo, hi]
    elif name == "norm":
        want = [mean, math.sqrt(var), lo, hi]
    elif name == "uniform":
        want = [lo, hi]
    elif name in ("lognorm", "gamma"):
        want = [mean, var, lo, hi]
    else:
        out.bad("parameters", "%s: unknown distribution %s" % (what, name))
        return
    for i, (g, w) in enumerate(zip(ps, want)):
        t = tol if not (name in ("lognorm", "gamma") and i == 1) else tol * 4 * (hi - lo + 1)
        if name == "norm" and i == 1:
            t = 2 * tol
        if abs(g - w) > t + 1e-6 * abs(w):
            out.bad("parameters", "%s: %s%s, the %d observations give %s" % (what, name, ps, n, want))
            return
    if len(ps) != len(want):
        out.bad("parameters", "%s: %s has %d parameters" % (what, name, len(ps)))


def faithful(p, js, ret, out):
    q = p["par"]
    nid = {v: k for k, v in p["names"].items()}
    obs = defaultdict(lambda: defaultdict(list))
    first = {}
    for c, a, r, s, e in p["rows"]:
        a, r = a.strip(), r.strip() or a.strip()
        if a not in nid:
            continue
        obs[a][r].append((ts(s), ts(e)))
        first[c] = min(first.get(c, ts(s)), ts(s))
    prof = {x["id"]: x for x in js["resource_profiles"]}
    dist = {x["task_id"]: {y["resource_id"]: y for y in x["resources"]} for x in js["task_resource_distribution"]}
    need = sorted(nid[a] for a in obs)
    if sorted(prof) != need or sorted(dist) != need or len(js["resource_profiles"]) != len(need) or len(js["task_resource_distribution"]) != len(need):
        out.bad("tasks", "profiles for %s, durations for %s; the log has %s" % (sorted(prof), sorted(dist), need))
        return
    cals = {x["id"]: Cal(x["time_periods"]) for x in js["resource_calendars"]}
    if len(cals) != len(js["resource_calendars"]):
        out.bad("calendars", "duplicate calendars: %s" % [x["id"] for x in js["resource_calendars"]])
    named, doing = set(), defaultdict(set)
    for a in obs:
        for y in prof[nid[a]]["resource_list"]:
            named.add(y["id"])
            doing[y["id"]].add(nid[a])
            if y["calendar"] not in cals:
                out.bad("calendars", "calendar %s of resource %s of task %s is missing" % (y["calendar"], y["id"], a))
                return
            if not cals[y["calendar"]].iv:
                out.bad("calendars", "calendar %s of resource %s of task %s is empty" % (y["calendar"], y["id"], a))
    if set(cals) != {r + "_timetable" for r in named}:
        out.bad("calendars", "calendars %s, resources %s" % (sorted(cals), sorted(named)))
    all_res = {r for a in obs for r in obs[a]}
    for a in obs:
        x = prof[nid[a]]
        if x["name"] != a:
            out.bad("tasks", "profile of %s is named %r" % (nid[a], x["name"]))
        rs = [y["id"] for y in x["resource_list"]]
        for y in x["resource_list"]:
            if set(y["assigned_tasks"]) != doing[y["id"]] or y["amount"] != 1 or y["name"] != y["id"]:
                out.bad("profile", "profile entry %s, the resource is listed for %s" % (y, sorted(doing[y["id"]])))
        if len(set(rs)) < len(rs) or not rs:
            out.bad("resources", "task %s has resources %s" % (a, rs))
            continue
        if set(dist[nid[a]]) != set(rs):
            out.bad("resources", "task %s: durations for %s, profile lists %s" % (a, sorted(dist[nid[a]]), rs))
            continue
        own = [r for r in rs if r in obs[a]]
        joint = [r for r in rs if r not in obs[a]]
        lost = [r for r in obs[a] if r not in own]
        for r in joint:
            if r in all_res or not r.startswith("Joint_%s_" % a):
                out.bad("resources", "task %s has resource %s, never observed performing it" % (a, r))
        if q["part"] == 0 and q["conf"] == 0 and (joint or lost):
            out.bad("resources", "task %s: resources %s discovered, %s observed" % (a, rs, sorted(obs[a])))
        if joint and not lost:
            out.bad("resources", "task %s: every observed resource has a calendar, yet %s were added" % (a, joint))
        out.obs["joint"] += len(joint)
        out.obs["own"] += len(own)
        out.obs["lost"] += len(lost)
        cal = {r: cals[r + "_timetable"] for r in rs}
        tot = sum(len(v) for v in obs[a].values()) * 2
        cov = sum(cal[r].dist(t_) == 0 for r in own for v in obs[a][r] for t_ in v)
        cov += sum(any(cal[r].dist(t_) == 0 for r in joint) for o in lost for v in obs[a][o] for t_ in v)
        out.obs["coverage_partial"] += cov < tot
        out.obs["coverage_full"] += cov == tot
        strict = not (p["xes"] and {"incomplete", "orphan"} & set(p["dirt"]))  # the events left alone count there
        if strict and cov / tot < q["supp"] - 1e-9:
            out.bad("coverage", "task %s: calendars of %s cover %d of %d timestamps, required %s" % (a, rs, cov, tot, q["supp"]))
        data, slack = {}, {}
        for r in own:
            if q["fit"]:
                data[r] = [cal[r].work(s, e) / 1e6 for s, e in obs[a][r]]
                slack[r] = .002 * max(1, max((e - s).days for s, e in obs[a][r]) + 1)
            else:
                data[r] = [(e - s).total_seconds() for s, e in obs[a][r]]
                slack[r] = 0
        for r in rs:
            y = dist[nid[a]][r]
            what = "task %s, resource %s" % (a, r)
            if r in own and len(data[r]) >= q["min_bin"]:
                fitted(what, y["distribution_name"], y["distribution_params"], data[r], slack[r], out)
                out.obs["fit_resource"] += 1
            elif not joint:
                fitted(what + " (aggregated)", y["distribution_name"], y["distribution_params"], sum((data[o] for o in own), []), max(slack.values()), out)
                out.obs["fit_aggregated"] += 1
            else:
                ps = [z["value"] for z in y["distribution_params"]]
                top = max((e - s).total_seconds() for o in obs[a] for s, e in obs[a][o])
                if not all(math.isfinite(z) and z >= 0 for z in ps) or y["distribution_name"] != "uniform" and ps[0] > top + 1e-6:
                    out.bad("parameters", "%s: %s%s, no execution took longer than %r" % (what, y["distribution_name"], ps, top))
    evs = {x["event_id"]: x for x in js["event_distribution"]}
    need = sorted(nid[a] for a in obs if nid[a] in model.events(p["tree"]))
    if sorted(evs) != need or len(js["event_distribution"]) != len(need):
        out.bad("events", "durations of events %s, the log has %s" % (sorted(evs), need))
        return
    for e in need:
        data = [(y - x).total_seconds() for v in obs[p["names"][e]].values() for x, y in v]
        fitted("event " + e, evs[e]["distribution_name"], evs[e]["distribution_params"], data, 0, out)
        out.obs["events"] += 1
    for a in obs:
        k = sum(len(v) for v in obs[a].values())
        if len(ret[7][a]) != k:
            out.bad("events", "%d executions of %s kept, the log has %d" % (len(ret[7][a]), a, k))
    arrivals(p, js, first, out)
    got = {(g["gateway_id"], z["path_id"]): z["value"] for g in js["gateway_branching_probabilities"] for z in g["probabilities"]}
    for n in model.gateways(p["tree"], ("xor", "loop")):
        fl = model.flows(n)
        t = sum(p["want"].get(f, 0) for f in fl)
        for f in fl:
            w = p["want"].get(f, 0) / t if t else 0
            if abs(got.get((n[1], f), -1) - w) > 1e-9:
                out.bad("branching", "flow %s: probability %r, %d of %d visits take it" % (f, got.get((n[1], f)), p["want"].get(f, 0), t))


def arrivals(p, js, first, out):
    cal = Cal(js["arrival_time_calendar"])
    at = sorted(first.values())
    off = [x for x in at if cal.dist(x) != 0]
    if off:
        out.bad("arrival-calendar", "arrivals %s are outside the discovered arrival calendar" % [str(x) for x in off[:3]])
        return
    gaps = [(b - a).total_seconds() for a, b in zip(at, at[1:])]
    y = js["arrival_time_distribution"]
    if not p["par"]["observed"]:
        fitted("arrivals", y["distribution_name"], y["distribution_params"], gaps, 0, out)
        return
    h = y["histogram_data"]
    out.obs["histogram"] += 1
    if y["distribution_name"] != "histogram_sampling" or len(h["cdf"]) != 20 or len(h["bin_midpoints"]) != 20:
        out.bad("histogram", "%s" % y)
        return
    def med(v):
        v = sorted(v)
        k = len(v) // 2
        return v[k] if len(v) % 2 else (v[k - 1] + v[k]) / 2
    m = med(gaps)
    dev = med([abs(x - m) for x in gaps])
    kept = [x for x in gaps if dev == 0 or abs(x - m) / dev < 5]
    out.obs["outliers"] += len(gaps) - len(kept)
    lo, hi = min(kept), max(kept)
    w = (hi - lo) / 20
    for k in range(20):
        if not near(h["bin_midpoints"][k], lo + (k + .5) * w):
            out.bad("histogram", "midpoint %d is %r, the kept gaps span [%r, %r]" % (k, h["bin_midpoints"][k], lo, hi))
            return
        edge = lo + (k + 1) * w
        eps = 1e-6 * max(1, hi)
        a = sum(x < edge - eps for x in kept) / len(kept) if k < 19 else 1
        b = sum(x <= edge + eps for x in kept) / len(kept)
        if not a - 1e-9 <= h["cdf"][k] <= b + 1e-9:
            out.bad("histogram", "cumulated share %r up to bin %d, %r..%r of the gaps lie there" % (h["cdf"][k], k, a, b))
            return


def rerun(p, js, out):
    from ..sim import execute
    from . import c02, c03, c04
    sc = dict(bpmn=p["bpmn"], json=js, tree=p["tree"], names=p["names"], n=8, start="2024-01-01T00:00:00+00:00", seed=p["seed"] % 2 ** 31, log_events=True)
    v, res = execute(sc, out)
    if len(res.log.by_case()) != sc["n"]:
        out.bad("rerun", "%d of %d cases of the discovered scenario completed" % (len(res.log.by_case()), sc["n"]))
    c02.check(sc, v, res, out)
    c03.check(v, res, out)
    out.obs["reruns"] += 1
    out.sample = dict(shape=c23.shape(p["tree"]), rows=len(p["rows"]), cases=p["n"], dirt=p["dirt"], xes=p["xes"], params=p["par"])
    out.sig = repr((c23.shape(p["tree"]), sorted(p["par"].items()), len(p["rows"])))
