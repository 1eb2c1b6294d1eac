"""Tiny helpers for the demonstrations: draw a model, run the simulator in a scratch directory, read its log."""
import contextlib, csv, datetime as dt, io, json, os, random, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
TAG = {"start": "startEvent", "end": "endEvent", "task": "task", "xor": "exclusiveGateway", "and": "parallelGateway",
       "or": "inclusiveGateway", "evg": "eventBasedGateway", "event": "intermediateCatchEvent"}
FULL = [{"from": "MONDAY", "to": "SUNDAY", "beginTime": "00:00:00", "endTime": "23:59:59.999999"}]


def bpmn(text):
    """lines 'a:task b:xor ...' then 'f1 a b' (flow id, source, target)"""
    nodes, flows = [], []
    for line in text.strip().splitlines():
        w = line.split()
        if ":" in w[0]:
            nodes += [x.split(":", 1) for x in w]
        else:
            flows.append(w)
    out = ['<?xml version="1.0" encoding="UTF-8"?>', '<bpmn:definitions xmlns:bpmn="http://www.omg.org/spec/BPMN/20100524/MODEL" '
           'id="d" targetNamespace="x">', '<bpmn:process id="p" isExecutable="true">']
    for i, k in nodes:
        a = "".join("<bpmn:incoming>%s</bpmn:incoming>" % f for f, s, t in flows if t == i)
        b = "".join("<bpmn:outgoing>%s</bpmn:outgoing>" % f for f, s, t in flows if s == i)
        d = "<bpmn:timerEventDefinition />" if k == "event" else ""
        out.append('<bpmn:%s id="%s" name="%s">%s%s%s</bpmn:%s>' % (TAG[k], i, i, a, b, d, TAG[k]))
    for f, s, t in flows:
        out.append('<bpmn:sequenceFlow id="%s" sourceRef="%s" targetRef="%s" />' % (f, s, t))
    return "\n".join(out + ["</bpmn:process>", "</bpmn:definitions>"])


def fix(x):
    return {"distribution_name": "fix", "distribution_params": [{"value": x}, {"value": 0}, {"value": max(1, x) + 1}]}


def period(d, a, b, e=None):
    return {"from": d, "to": e or d, "beginTime": a, "endTime": b}


def params(tasks, resources, arrival=60, gateways=None, events=None, arr_cal=None, **more):
    """tasks: {task: {resource: seconds}}; resources: {id: (calendar periods, amount, cost)}"""
    j = {"resource_profiles": [], "resource_calendars": [], "task_resource_distribution": [],
         "arrival_time_distribution": arrival if isinstance(arrival, dict) else fix(arrival), "arrival_time_calendar": arr_cal or FULL,
         "gateway_branching_probabilities": [{"gateway_id": g, "probabilities": [{"path_id": f, "value": p} for f, p in d.items()]}
                                             for g, d in (gateways or {}).items()],
         "event_distribution": [dict({"event_id": e}, **(x if isinstance(x, dict) else fix(x))) for e, x in (events or {}).items()]}
    for r, (cal, amount, cost) in resources.items():
        j["resource_calendars"].append({"id": "cal_" + r, "name": r, "time_periods": cal})
        j["resource_profiles"].append({"id": "pool_" + r, "name": "pool " + r, "resource_list": [
            {"id": r, "name": r, "cost_per_hour": cost, "amount": amount, "calendar": "cal_" + r,
             "assignedTasks": [t for t in tasks if r in tasks[t]]}]})
    for t, d in tasks.items():
        j["task_resource_distribution"].append({"task_id": t, "resources": [
            dict({"resource_id": r}, **(x if isinstance(x, dict) else fix(x))) for r, x in d.items()]})
    j.update(more)
    return j


class Run:
    pass


def run(model, j, n, seed=1, start="2024-01-01T09:00:00+00:00", log=True, stat=True, log_events=True, fixed=None):
    import numpy
    from prosimos.simulation_engine import run_simulation
    random.seed(seed)
    numpy.random.seed(seed)
    d, old = tempfile.mkdtemp(prefix="demo_"), os.getcwd()
    try:
        os.chdir(d)
        with open("m.bpmn", "w", encoding="utf-8") as f:
            f.write(model)
        with open("s.json", "w", encoding="utf-8") as f:
            json.dump(j, f)
        with contextlib.redirect_stdout(io.StringIO()):
            ret = run_simulation("m.bpmn", "s.json", n, "stats.csv" if stat else None, "log.csv" if log else None, start, log_events, fixed)
        x = Run()
        x.ret, x.rows = ret, []
        x.stats = open("stats.csv", newline="").read() if stat and os.path.exists("stats.csv") else None
        x.warnings = open("simulation_warnings.txt").read() if os.path.exists("simulation_warnings.txt") else None
        x.text = open("log.csv", newline="", encoding="utf-8").read() if log and os.path.exists("log.csv") else ""
        for r in csv.DictReader(io.StringIO(x.text)):
            r["case"] = int(r["case_id"])
            r["en"], r["st"], r["co"] = (dt.datetime.fromisoformat(r[k]) for k in ("enable_time", "start_time", "end_time"))
            x.rows.append(r)
        return x
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def section(stats, name):
    """rows of one section of the statistics file as dicts"""
    rows = list(csv.reader(io.StringIO(stats)))
    i = next(k for k, r in enumerate(rows) if r and r[0].strip() == name)
    out = []
    for r in rows[i + 2:]:
        if not any(r):
            break
        out.append(dict(zip(rows[i + 1], r)))
    return out


def check(ok, msg):
    if not ok:
        print("BROKEN:", msg)
        sys.exit(1)
