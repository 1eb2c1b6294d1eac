"""C19: scenario parameters mean what they say; inconsistent ones are rejected."""
import copy, re
import xml.etree.ElementTree as ET
from .. import batch, model, scenario
from ..core import Out
from ..run import SimCrash, simulate
from ..sim import execute, shape
from . import c02, c03, c08, c09, c13, c14

N = {"quick": 4000, "thorough": 24000}
RULE = ("a random scenario and a rewriting of it with the same meaning (entries and sections in another order, an amount of n written as "
        "n resources, the remaining probability written out, a task's allocation split into two entries, the BPMN file re-serialised) "
        "are run from one random state and their logs and resource statistics compared; inconsistent scenarios must end in the "
        "documented error and their smallest repair must run; non-trivial: the rewriting changed the files, or the scenario was "
        "rejected; distinct by kind of rewriting and model shape")
MUST_SEE = ["equal_logs", "reordered", "expanded_amounts", "remainder_written_out", "allocation_split", "bpmn_rewritten",
            "remainder_of_zero", "remainder_shared_by_several", "resources_of_expanded_profiles_used",
            "rejected_case", "rejected_global", "rejected_event", "rejected_markov", "rejected_case_event", "rejected_ends",
            "rejected_week_days", "rejected_hours", "rejected_week_day_operator", "rejected_unbounded", "accepted_boundary",
            "scenarios_taken_as_given"]
ASSUME = ["a scenario and its rewriting draw the same random numbers"]
KINDS = ["order", "amount", "missing", "split", "bpmn", "all"]
EXC = {"case": "InvalidCaseAttributeException", "global": "InvalidGlobalAttributeException", "event": "InvalidEventAttributeException",
       "markov": "InvalidEventAttributeException", "case_event": "ValueError", "ends": "InvalidBpmnModelException",
       "week_days": "InvalidRuleDefinitionException", "hours": "InvalidRuleDefinitionException",
       "week_day_operator": "InvalidRuleDefinitionException", "unbounded": ""}


def base(r):
    x = r.random()
    if x < .45:
        p = dict(n=(3, 20), prio=.5, p_event=.15, load=r.choice([.05, .3, 1]), max_amount=r.choice([2, 5, 12]))
        return scenario.gen(r, **p)
    if x < .65:
        return batch.gen(r, batch.FAMS, False, ntasks=(1, 3), alts=(1, 2), max_amount=4)
    for _ in range(20):
        q = (c08 if x < .82 else c09).gen(r, "quick", r.randrange(1, 11))
        sc = q.get("sc", q)
        if sc["n"] <= 40 and "bpmn" in sc:
            return sc
    return scenario.gen(r)


def gen(r, tier, i):
    if i % 5 == 4:
        return reject(r, list(EXC)[(i // 5) % len(EXC)])
    sc = base(r)
    kind = KINDS[i % len(KINDS)]
    sc = dict(sc, json=copy.deepcopy(sc["json"]))
    alt = dict(sc, json=copy.deepcopy(sc["json"]))
    did = []
    for k in KINDS[:-1] if kind == "all" else [kind]:
        did += REWRITE[k](r, sc, alt)
    return {"kind": kind, "sc": sc, "alt": alt, "did": did}


def order(r, sc, alt):
    j = alt["json"]
    # the order of the resources of a task, of the tasks and of the batched tasks breaks ties: those stay
    for k in ("resource_profiles", "resource_calendars", "gateway_branching_probabilities", "event_distribution", "branch_rules",
              "prioritisation_rules"):
        if isinstance(j.get(k), list):
            r.shuffle(j[k])
    for p in j["resource_profiles"]:
        r.shuffle(p["resource_list"])
        p["resource_list"] = [shuffled(r, x) for x in p["resource_list"]]
    for c in j["resource_calendars"]:
        r.shuffle(c["time_periods"])
        c["time_periods"] = [shuffled(r, x) for x in c["time_periods"]]
    r.shuffle(j["arrival_time_calendar"])
    evs = j.get("event_attributes")
    if evs and len({e["event_id"] for e in evs}) == len(evs):
        r.shuffle(evs)
    for ru in j.get("prioritisation_rules", []):
        r.shuffle(ru["rules"])
        for a in ru["rules"]:
            r.shuffle(a)
    alt["json"] = shuffled(r, j)
    return ["reordered"]


def shuffled(r, d):
    ks = list(d)
    r.shuffle(ks)
    return {k: d[k] for k in ks}


def amount(r, sc, alt):
    j, did = alt["json"], []
    grown = {}
    for p in j["resource_profiles"]:
        out = []
        for x in p["resource_list"]:
            n = int(x["amount"])
            if n == 1:
                out.append(x)
                continue
            grown[x["id"]] = ["%s_%d" % (x["id"], k) for k in range(n)]
            out += [dict(x, id=i, name="%s_%d" % (x["name"], k), amount=1) for k, i in enumerate(grown[x["id"]])]
            did = ["expanded_amounts"]
        p["resource_list"] = out
    for t in j["task_resource_distribution"]:
        out = []
        for x in t["resources"]:
            out += [dict(x, resource_id=i) for i in grown.get(x["resource_id"], [x["resource_id"]])]
        t["resources"] = out
    return did


def missing(r, sc, alt):
    did = []
    for a, b in zip(sc["json"]["gateway_branching_probabilities"], by_gateway(sc, alt)):
        pa = a["probabilities"]
        if len(pa) < 2:
            continue
        x = r.random()
        if x < .3:
            # the given values already sum to one: nothing remains
            w = r.choice([[.1, .2, .7], [.6, .3, .1], [.4, .3, .2, .1], [.15, .35, .5], [.1, .1, .8], [.7, .2, .1], [.3, .6, .1], [1.0],
                          [.55, .35, .1], [.1] * 10])
            k = len(pa) - 1
            if k < len(w):
                w = w[:k - 1] + [round(sum(w[k - 1:]), 6)]
            w = w + [0.0] * (k - len(w))
            r.shuffle(w)
            if sum(w) == 0:
                continue
            vs = w + [None]
        else:
            k = r.randint(1, len(pa) - 1)
            w = [r.choice([.05, .1, .2, 1 / 3]) / (len(pa) - k) * 2 for _ in range(len(pa) - k)]
            vs = w + [None] * k
        r.shuffle(vs)
        rest = max(0.0, 1 - sum(v for v in vs if v is not None)) / vs.count(None)
        if any(e["path_id"].endswith("_exit") and (rest if v is None else v) < .3 for e, v in zip(pa, vs)):
            continue  # a loop that is hardly ever left
        for e, v in zip(pa, vs):
            e.pop("value", None)
            if v is not None:
                e["value"] = v
            other = next(q for q in b["probabilities"] if q["path_id"] == e["path_id"])
            other["value"] = rest if v is None else v
        did.append("remainder_written_out")
        if rest < 1e-9:
            did.append("remainder_of_zero")
        elif vs.count(None) > 1:
            did.append("remainder_shared_by_several")
    return did


def by_gateway(sc, alt):
    m = {g["gateway_id"]: g for g in alt["json"]["gateway_branching_probabilities"]}
    return [m[g["gateway_id"]] for g in sc["json"]["gateway_branching_probabilities"]]


def split(r, sc, alt):
    j, out, did = alt["json"], [], []
    for t in j["task_resource_distribution"]:
        rs = t["resources"]
        if len(rs) > 1:
            k = r.randint(1, len(rs) - 1)
            out += [dict(t, resources=rs[:k]), dict(t, resources=rs[k:])]
            did = ["allocation_split"]
        else:
            out.append(t)
    j["task_resource_distribution"] = out
    return did


def bpmn(r, sc, alt):
    NS = model.NS
    for p, u in (("bpmn", NS), ("", NS)):
        ET.register_namespace(p, u)
        if r.random() < .6:
            break
    root = ET.fromstring(alt["bpmn"])
    pr = root.find("{%s}process" % NS)
    fl = [e for e in pr if e.tag.endswith("sequenceFlow")]
    no = [e for e in pr if not e.tag.endswith("sequenceFlow")]
    r.shuffle(no)
    for e in no:
        for k in r.sample(["documentation", "extensionElements"], r.randint(0, 2)):
            q = ET.Element("{%s}%s" % (NS, k))
            q.text = "text"
            e.insert(0, q)
    deco = ET.Element("{%s}laneSet" % NS, {"id": "lanes"})
    ET.SubElement(deco, "{%s}lane" % NS, {"id": "lane1", "name": "Lane"})
    text = ET.Element("{%s}textAnnotation" % NS, {"id": "note1"})
    for e in list(pr):
        pr.remove(e)
    # the order among the flows stays; the nodes may come before, after or in between
    seq = no + [None] * len(fl)
    r.shuffle(seq)
    it = iter(fl)
    seq = [next(it) if e is None else e for e in seq]
    for e in [deco] + seq + [text]:
        pr.append(e)
    col = ET.Element("{%s}collaboration" % NS, {"id": "collab"})
    ET.SubElement(col, "{%s}participant" % NS, {"id": "part", "name": "P", "processRef": pr.get("id", "p")})
    root.insert(0, col)
    alt["bpmn"] = ET.tostring(root, encoding="unicode")
    return ["bpmn_rewritten"]


REWRITE = {"order": order, "amount": amount, "missing": missing, "split": split, "bpmn": bpmn}


# ---------------------------------------------------------------- rejections
def reject(r, what):
    sc = scenario.gen(r, n=(1, 4), budget=(2, 5), depth=3, prio=0)
    ok = dict(sc, json=copy.deepcopy(sc["json"]))
    bad = dict(sc, json=copy.deepcopy(sc["json"]))
    t = r.choice(model.tasks(sc["tree"]))
    off = r.choice([-1, 1]) * r.choice([2e-6, 1e-5, 1e-3, .1, .3])
    eps = r.choice([-1, 1]) * r.choice([0, 1e-16, 1e-12, 1e-9, 5e-7])

    def probs(d):
        n = r.randint(1, 4)
        w = [r.uniform(.3, 1) for _ in range(n)]
        w = [x / sum(w) for x in w]
        k = r.randrange(n)
        w[k] = max(0, w[k] + d) if d is not None else w[k]
        return w

    def disc(j, d):
        return [{"key": "k%d" % i, "value": x} for i, x in enumerate(probs(d))]
    if what in ("case", "global"):
        for s, d in ((ok, eps), (bad, off)):
            good = {"name": "a0", "type": "discrete", "values": [{"key": "x", "value": 1}]}
            l = [good, {"name": "a1", "type": "discrete", "values": disc(s, d)}]
            r.shuffle(l)
            s["json"][what + "_attributes"] = l
    elif what in ("event", "markov"):
        for s, d in ((ok, eps), (bad, off)):
            v = disc(s, d) if what == "event" else \
                {st: {"k%d" % i: x for i, x in enumerate(probs(d if st == "k1" else None))} for st in r.sample(["k0", "k1", "k2"], 3)}
            a = [{"name": "a1", "type": "discrete", "values": v}, {"name": "a2", "type": "expression", "values": "1 + 1"}]
            r.shuffle(a)
            s["json"]["event_attributes"] = [{"event_id": t, "attributes": a}]
    elif what == "case_event":
        a = {"name": "a1", "type": "continuous", "values": {"distribution_name": "fix", "distribution_params": [{"value": 3}]}}
        e = {"name": "a1", "type": "expression", "values": "a1 + 1"}
        for s in (ok, bad):
            s["json"]["case_attributes"] = [a]
            s["json"]["event_attributes"] = [{"event_id": t, "attributes": [e]}]
        if r.random() < .5:
            ok["json"]["global_attributes"] = [a]
        else:
            ok["json"]["event_attributes"][0]["attributes"] = [{"name": "a2", "type": "expression", "values": "a1 + 1"}]
    elif what == "ends":
        bad["bpmn"] = ends(r, bad)
    else:
        def spec(rules):
            return [{"task_id": t, "type": r.choice(["Sequential", "Parallel"]), "size_distrib": [{"key": "1", "value": 0}, {"key": "2", "value": 1}],
                     "duration_distrib": [{"key": "2", "value": .8}], "firing_rules": rules}]

        def c(a, o, v):
            return {"attribute": a, "comparison": o, "value": v}
        size = [c("size", ">=", 2)]
        if what == "week_days":
            two = [c("week_day", "=", "Monday"), c("week_day", "=", r.choice(["Monday", "Friday"]))]
            g, b = [[two[0]], [two[1]]], [two]
        elif what == "hours":
            h = [c("daily_hour", ">=", "9"), c("daily_hour", "<", "17")]
            g, b = [h], [h + [c("daily_hour", r.choice(["<", ">", "="]), "12")]]
            if r.random() < .5:
                b[0].insert(0, c("week_day", "=", "Monday"))
        elif what == "week_day_operator":
            g, b = [[c("week_day", "=", "Friday")]], [[c("week_day", r.choice(["<", ">", "<=", ">="]), "Friday")]]
        else:
            a = r.choice(["large_wt", "ready_wt"])
            g, b = [[c(a, ">", 100), c(a, "<", 5000)]], [[c(a, r.choice([">", ">="]), 100)]]
        if r.random() < .5:
            g, b = [size] + g, [size] + b
        ok["json"]["batch_processing"], bad["json"]["batch_processing"] = spec(g), spec(b)
    return {"kind": "reject", "what": what, "ok": ok, "bad": bad}


def ends(r, sc):
    root = ET.fromstring(sc["bpmn"])
    q = "{%s}" % model.NS
    pr = root.find(q + "process")
    end, start = pr.find(q + "endEvent"), pr.find(q + "startEvent")
    if r.random() < .5:
        # a second end event behind a task of its own
        ET.SubElement(pr, q + "task", {"id": "zz", "name": "zz"})
        ET.SubElement(pr, q + "endEvent", {"id": "end2", "name": r.choice(["end2", end.get("name")])})
        ET.SubElement(pr, q + "sequenceFlow", {"id": "zf1", "sourceRef": start.get("id"), "targetRef": "zz"})
        ET.SubElement(pr, q + "sequenceFlow", {"id": "zf2", "sourceRef": "zz", "targetRef": "end2"})
        sc["json"]["task_resource_distribution"].append(dict(sc["json"]["task_resource_distribution"][0], task_id="zz"))
    else:
        # the end event becomes one more activity
        end.tag = q + "task"
        sc["json"]["task_resource_distribution"].append(dict(sc["json"]["task_resource_distribution"][0], task_id=end.get("id")))
    return ET.tostring(root, encoding="unicode")


# ---------------------------------------------------------------- judging
def judge(p, out):
    if p["kind"] == "reject":
        return rejecting(p, out)
    sc, alt = p["sc"], p["alt"]
    a = run(sc)
    b = run(alt)
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and isinstance(b, str):
            out.inconclusive = "both crash: " + a[:60]
            out.bad("crash", "the scenario cannot be run: " + a)
        else:
            out.bad("rewriting-crash", "%s (%s): one form runs, the other ends in %s" % (p["kind"], ",".join(sorted(set(p["did"]))),
                                                                                      a if isinstance(a, str) else b))
        return
    x, y = anonym(a.log_text), anonym(b.log_text)
    if x != y and a.log and b.log:
        drift = False
        for i, (u, v) in enumerate(zip(a.log.rows + [None], b.log.rows + [None])):
            if u and v and anonym("|".join(u["raw"])) == anonym("|".join(v["raw"])):
                continue
            if u and v and u["raw"][:2] == v["raw"][:2] and anonym("|".join(u["raw"][5:])) == anonym("|".join(v["raw"][5:])) and \
                    all(abs(u[k] - v[k]) <= 1000 for k in ("en", "st", "co")):
                drift = True
                continue
            if drift:
                break
            out.bad("different-log", "%s (%s): from row %d on the rewritten scenario behaves differently:\n  %s\n  %s" % (
                p["kind"], ",".join(sorted(set(p["did"]))), i, u and u["raw"], v and v["raw"]))
            return
        out.inconclusive = "sums in another order differ by microseconds"
        return
    ra, rb = table(a), table(b)
    if ra != rb:
        k = sorted(set(ra.items()) ^ set(rb.items()))
        out.bad("different-statistics", "%s: resource statistics differ: %s" % (p["kind"], str(k[:4])[:300]))
        return
    out.obs["equal_logs"] += 1
    for k in p["did"]:
        out.obs[k] += 1
    if not sc["json"].get("batch_processing") and "gateway_execution_limit" not in sc["json"]:
        as_given(sc, a, out)
    if "expanded_amounts" in p["did"]:
        multi = {x["name"] + "_" for q in sc["json"]["resource_profiles"] for x in q["resource_list"] if int(x["amount"]) > 1}
        used = {w["res"] for w in a.log.rows}
        out.obs["resources_of_expanded_profiles_used"] += sum(1 for u in used if u.rsplit("_", 1)[0] + "_" in multi)
    if len(a.log.rows) > 1 and p["did"]:
        out.sig = p["kind"] + "|" + ",".join(sorted(set(p["did"]))) + "|" + shape(sc)
        out.sample = "%s: %d rows equal" % (p["kind"], len(a.log.rows))


def as_given(sc, res, out):
    """durations, calendars, allocation and costs of the log and the statistics are those of the scenario"""
    v = scenario.View(sc)
    for r in res.log.rows:
        r["label"] = v.label.get(r["act"])
        r["is_event"] = r["label"] in v.events
    sub = Out()
    c02.check(sc, v, res, sub)
    c03.check(v, res, sub)
    c13.compare(sc, v, res, sub)
    c14.compare(sc, v, res, sub)
    for q in sub.viol:
        out.viol.append(q)
    out.obs["scenarios_taken_as_given"] += 1


def run(sc):
    try:
        return simulate(sc)
    except SimCrash as e:
        return str(e)


def anonym(text):
    return [re.sub(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}", "#", x) for x in text.split("\n")]


def table(res):
    return {w[0]: tuple(w[1:]) for w in res.stats["Resource Utilization"][1:]}


def rejecting(p, out):
    what = p["what"]
    a = run(p["ok"])
    if isinstance(a, str):
        out.bad("valid-rejected", "%s: the consistent scenario does not run: %s" % (what, a))
        return
    out.obs["accepted_boundary"] += 1
    b = run(p["bad"])
    if not isinstance(b, str):
        out.bad("invalid-accepted", "%s: the inconsistent scenario is simulated (%d rows)" % (what, len(b.log.rows)))
        return
    if EXC[what] and not b.startswith(EXC[what] + ":"):
        out.bad("wrong-error", "%s: rejected with %s, expected %s" % (what, b.split(" @ ")[0][:200], EXC[what]))
        return
    out.obs["rejected_" + what] += 1
    out.sig = "reject|%s|%s" % (what, shape(p["ok"]))
    out.sample = b.split(" @ ")[0][:150]
