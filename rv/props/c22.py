"""C22: a run depends only on its inputs: no state leaks between runs."""
import copy, hashlib, json, os, pickle, re, struct, subprocess, sys, tempfile, shutil
from .. import batch, scenario
from ..run import SimCrash, simulate
from ..sim import shape
from . import c08, c09, c19

N = {"quick": 1800, "thorough": 16000}
RULE = ("a random scenario (all families: calendars, batches, priorities, attributes, conditions, events, limits) is run in a process that "
        "simulated nothing before, and after other scenarios in one process (valid, the same model and names with other numbers, rejected, "
        "crashing in the middle, the same files with another number of cases) from the same random state: log, statistics and warnings must be the same; the same with other combinations of requested "
        "outputs, and in fresh processes with other hash seeds, time zones and order of runs; non-trivial: at least two rows; distinct "
        "by kind, intermediate runs and model shape")
MUST_SEE = ["repeated", "repeated_after_rejected", "repeated_after_crash", "repeated_after_other", "repeated_after_variant", "repeated_with_warnings",
            "batches_repeated", "output_combinations", "in_memory_runs", "fresh_processes", "runs_in_fresh_processes", "without_events",
            "warnings_files"]
ASSUME = ["random state: the module random and numpy's global generator"]
CPU_CAP = 300
UUID = re.compile(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}")
ZONES = ["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Auckland", "Europe/Berlin"]


def base(r, small=False):
    sc = c19.base(r)
    if small and sc["n"] > 15:
        sc = dict(sc, n=15)
    if r.random() < .3:
        sc = dict(sc, json=copy.deepcopy(sc["json"]))
        for g in sc["json"]["gateway_branching_probabilities"]:
            k = r.randrange(len(g["probabilities"]))
            if not any(e["path_id"].endswith("_exit") for e in g["probabilities"]) and "value" in g["probabilities"][k]:
                g["probabilities"][k].pop("value")   # warned about
    return sc


def gen(r, tier, i):
    k = i % 50
    if k == 0:
        n = 14 if tier == "quick" else 40
        return {"kind": "proc", "scs": [base(r, True) for _ in range(n)], "hash": r.randrange(1, 1 << 31), "tz": r.choice(ZONES[1:])}
    if k % 3 == 1:
        return {"kind": "outputs", "sc": base(r), "zone": r.choice(ZONES)}
    mid, sc = [], base(r)
    for _ in range(r.choice([1, 1, 2, 3])):
        m = r.choice(["other", "rejected", "crash", "more", "variant", "variant", "variant"])
        if m == "other":
            mid.append([m, base(r, True)])
        elif m == "rejected":
            mid.append([m, c19.reject(r, r.choice(list(c19.EXC)))["bad"]])
        elif m == "more":
            mid.append([m, None])
        elif m == "variant":
            mid.append([m, variant(r, sc)])
        else:
            b = base(r, True)
            b = dict(b, json=copy.deepcopy(b["json"]))
            t = r.choice(b["json"]["task_resource_distribution"])
            for x in t["resources"]:
                x.update(distribution_name="no_such_distribution")   # fails when it is first sampled
            mid.append([m, b])
    return {"kind": "again", "sc": sc, "mid": mid}


def variant(r, sc):
    """the same model and names with other numbers"""
    j = copy.deepcopy(sc["json"])
    for g in j["gateway_branching_probabilities"]:
        ps = g["probabilities"]
        if all("value" in x for x in ps):
            vals = [x["value"] for x in ps]
            for x, v in zip(ps, vals[1:] + vals[:1] if r.random() < .5 else r.sample(vals, len(vals))):
                x["value"] = v
    for c in j["resource_calendars"]:
        if "time_periods" in c and r.random() < .6:
            c["time_periods"] = [{"from": "MONDAY", "to": "SUNDAY", "beginTime": "0%d:00:00" % r.randint(0, 9), "endTime": "%d:30:00" % r.randint(11, 23)}]
    for x in [x for t in j["task_resource_distribution"] for x in t["resources"]] + j.get("event_distribution", []) + [j["arrival_time_distribution"]]:
        if "distribution_name" in x and r.random() < .6:
            x.update(distribution_name="fix", distribution_params=[{"value": r.choice([7, 100, 4000])}, {"value": 0}, {"value": 1e9}])
    for pool in j["resource_profiles"]:
        for x in pool["resource_list"]:
            if r.random() < .4:
                x["cost_per_hour"] = r.choice([1, 9, 77])

    def numbers(o):
        """other bounds, values and factors in rules and scalings"""
        if isinstance(o, list):
            for x in o:
                numbers(x)
        elif isinstance(o, dict):
            for k in o:
                if k == "value" and "attribute" in o and isinstance(o[k], (int, float)) and not isinstance(o[k], bool) and r.random() < .5:
                    o[k] = o[k] + 1
                elif k in ("rules", "firing_rules", "duration_distrib"):
                    numbers(o[k])
    for k in ("batch_processing", "prioritisation_rules", "branch_rules"):
        numbers(j.get(k, []))
    if j.get("prioritisation_rules") and r.random() < .5:
        lv = [x["priority_level"] for x in j["prioritisation_rules"]]
        for x, v in zip(j["prioritisation_rules"], reversed(lv)):
            x["priority_level"] = v
    return dict(sc, json=j, seed=sc["seed"] + r.choice([0, 3]))


def digest(res):
    """what a run wrote, batch identifiers renamed in order of appearance"""
    ids = {}

    def sub(m):
        return "#%d" % ids.setdefault(m.group(0), len(ids))
    d = {"log": UUID.sub(sub, res.log_text) if res.log_text is not None else None,
         "stats": res.stats_text, "warnings": res.warnings, "files": res.files}
    return d


def run(sc, **kw):
    try:
        return digest(simulate(sc, **kw))
    except SimCrash as e:
        return {"crash": str(e).split(" @ ")[0]}


_pristine = None


def pristine(sc):
    """run(sc) in a process in which nothing was simulated before: forked from one that has only imported the simulator"""
    global _pristine
    if _pristine is None or _pristine[2] != os.getpid():
        import prosimos.simulation_engine
        a, b = os.pipe()
        c, d = os.pipe()
        if os.fork() == 0:
            try:
                os.close(b)
                os.close(c)
                _serve(a, d)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        _pristine = (b, c, os.getpid())
    _send(_pristine[0], sc)
    return _receive(_pristine[1])


def _send(fd, x):
    x = pickle.dumps(x)
    x = struct.pack("<Q", len(x)) + x
    while x:
        x = x[os.write(fd, x):]


def _receive(fd):
    def read(n):
        x = b""
        while len(x) < n:
            y = os.read(fd, n - len(x))
            if not y:
                raise EOFError
            x += y
        return x
    return pickle.loads(read(struct.unpack("<Q", read(8))[0]))


def _serve(inp, outp):
    while True:
        try:
            sc = _receive(inp)
        except EOFError:
            return
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    res = run(sc)
                except BaseException as e:
                    res = {"crash": "in the fresh process: %r" % e}
                _send(outp, res)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)


def first_difference(a, b):
    if isinstance(a, str) and isinstance(b, str):
        a, b = a.split("\n"), b.split("\n")
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return "line %d: %s | %s" % (i, str(x)[:160], str(y)[:160])
        return "%d and %d lines" % (len(a), len(b))
    return "%s | %s" % (str(a)[:160], str(b)[:160])


def same(out, kind, what, a, b, keys=("crash", "log", "stats", "warnings", "files")):
    for k in keys:
        if a.get(k) != b.get(k):
            out.bad(kind, "%s: %s differ: %s" % (what, k, first_difference(a.get(k), b.get(k))))
            return False
    return True


def judge(p, out):
    {"proc": proc, "outputs": outputs, "again": again}[p["kind"]](p, out)


def again(p, out):
    sc = p["sc"]
    a = pristine(sc)
    if "crash" in a:
        out.bad("crash", "the scenario cannot be run: " + a["crash"])
        return
    for m, x in p["mid"]:
        if m == "more":
            x = dict(sc, n=sc["n"] + 2, seed=sc["seed"] + 1)
        y = run(x)
        if m in ("rejected", "crash") and "crash" not in y and m == "rejected":
            out.inconclusive = "intermediate scenario was not rejected"
        if m == "crash" and "crash" not in y:
            m = "other"
        out.obs["repeated_after_" + m] += 1
    b = run(sc)
    if not same(out, "leak", "run in a fresh process and after %s" % ([m for m, _ in p["mid"]],), a, b):
        return
    out.obs["repeated"] += 1
    out.obs["warnings_files"] += a["warnings"] is not None
    out.obs["repeated_with_warnings"] += bool(a["warnings"])
    out.obs["batches_repeated"] += bool(sc["json"].get("batch_processing")) and "#1" in a["log"]
    if a["log"].count("\n") > 2:
        out.sig = "again|%s|%s" % (",".join(m for m, _ in p["mid"]), shape(sc))
        out.sample = "%d log lines, %d warnings repeated after %s" % (a["log"].count("\n"), len(a["warnings"] or []), [m for m, _ in p["mid"]])


def outputs(p, out):
    sc = p["sc"]
    a = run(sc)
    if "crash" in a:
        out.bad("crash", "the scenario cannot be run: " + a["crash"])
        return
    b = run(sc, want_stats=False)
    c = run(sc, want_log=False)
    if not same(out, "outputs", "only the log requested", a, b, ("crash", "log", "warnings")):
        return
    if not same(out, "outputs", "only the statistics requested", a, c, ("crash", "stats", "warnings")):
        return
    out.obs["output_combinations"] += 2
    try:
        d = simulate(sc, want_log=False, want_stats=False)
    except SimCrash as e:
        out.bad("outputs", "without output files: crash " + str(e))
        return
    if d.files:
        out.bad("files", "a run without outputs wrote %s" % d.files)
    info = d.ret[1]
    log = simulate(sc).log
    # the simulation in memory is the one that was logged
    spans = {}
    for w in log.rows:
        s = spans.setdefault(w["case"], [w["dt"][1], w["dt"][2]])
        s[0], s[1] = min(s[0], w["dt"][1]), max(s[1], w["dt"][2])
    lo, hi = min((s[0] for s in spans.values()), default=None), max((s[1] for s in spans.values()), default=None)
    if log.rows:
        for nm, x, y in (("started_at", info.started_at, lo), ("ended_at", info.ended_at, hi)):
            if abs((x - y).total_seconds()) > .001:
                out.bad("in-memory", "the run without outputs has %s %s, the log %s" % (nm, x, y))
    out.obs["in_memory_runs"] += 1
    # leaving out the events of the log changes nothing else
    e = simulate(dict(sc, log_events=False))
    v = scenario.View(sc)
    kept = [UUID.sub("#", "|".join(w["raw"])) for w in log.rows if v.label.get(w["act"]) not in v.events]
    rows = [UUID.sub("#", "|".join(w["raw"])) for w in e.log.rows]
    if sorted(kept) != sorted(rows):
        out.bad("outputs", "without logged events: %s" % first_difference(sorted(kept), sorted(rows)))
        return
    out.obs["without_events"] += len(kept) < len(log.rows)
    if len(log.rows) > 2:
        out.sig = "outputs|" + shape(sc)
        out.sample = "%d rows, %d without events" % (len(log.rows), len(rows))


def proc(p, out):
    here = [run(sc) for sc in p["scs"]]
    d = tempfile.mkdtemp(prefix="rv_proc_")
    try:
        f = os.path.join(d, "scs.json")
        with open(f, "w") as h:
            json.dump(p["scs"], h)
        env = dict(os.environ, PYTHONHASHSEED=str(p["hash"]), TZ=p["tz"])
        q = subprocess.run([sys.executable, "-m", "rv.props.c22", f], env=env, cwd=d, capture_output=True, text=True, timeout=600)
        if q.returncode:
            out.inconclusive = "subprocess failed: " + q.stderr[-200:]
            return
        there = json.load(open(f + ".out"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for i, (a, b) in enumerate(zip(here, there)):
        if "crash" in a and "crash" in b:
            continue
        if not same(out, "process", "run %d of a fresh process (hash seed %d, TZ %s)" % (i, p["hash"], p["tz"]), a, b):
            return
        out.obs["runs_in_fresh_processes"] += 1
    out.obs["fresh_processes"] += 1
    out.sig = "proc|%d" % p["hash"]
    out.sample = "%d scenarios agree between processes" % len(here)


if __name__ == "__main__":
    scs = json.load(open(sys.argv[1]))
    res = [None] * len(scs)
    for i in reversed(range(len(scs))):
        res[i] = run(scs[i])
    json.dump(res, open(sys.argv[1] + ".out", "w"))
