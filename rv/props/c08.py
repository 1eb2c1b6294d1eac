"""C08: decisions follow conditions, defaults and probabilities."""
import re
from scipy.stats import binom
from .. import law, scenario, model, attrs
from ..sim import execute, decisions, shape, short

N = {"quick": 3500, "thorough": 40000}
RULE = ("random models whose branches all start with an activity, with branch conditions over case, event and global attributes, "
        "default flows, probabilities 0/1/unspecified; every decision is read off the timed replay and compared with the conditions "
        "evaluated on the attribute columns of the row before it; frequencies by exact binomial tails; non-trivial: a conditional "
        "decision was observed; distinct by rules and model shape")
MUST_SEE = ["decisions", "xor_one_true", "xor_many_true", "xor_many_true_all_zero", "xor_none_default", "xor_none_probabilities", "or_true", "or_many_true",
            "or_none_default", "or_none_probabilities", "unconditioned", "or_undeclared_condition", "probability_tests", "independence_tests", "zero_probability_flows", "shared_remainder",
            "event_attribute_decisions", "global_attribute_decisions"]
ASSUME = ["probabilities of one gateway sum to one (README)", "attribute columns are as of the row (checked by C09)"]
ALPHA = 1e-11


def mark(t, new):
    """every branch of a decision starts with its own activity"""
    def lead(c):
        if c is None:
            return new()
        c = mark(c, new)
        if c[0] == "task":
            return c
        if c[0] == "seq" and c[1][0][0] == "task":
            return c
        return ["seq", [new(), c]]
    k = t[0]
    if k in ("task", "event"):
        return t
    if k == "seq":
        return ["seq", [mark(c, new) for c in t[1]]]
    if k in ("xor", "or"):
        return [k, t[1], [lead(c) for c in t[2]]]
    if k == "and":
        return [k, t[1], [None if c is None else mark(c, new) for c in t[2]]]
    if k == "loop":
        return [k, t[1], lead(t[2]), None if t[3] is None else lead(t[3])]
    if k == "evg":
        return [k, t[1], [[e, None if c is None else lead(c)] for e, c in t[2]]]


def gen(r, tier, i):
    stat = i % 12 == 0
    p = dict(p_event=.1, budget=(2, 8), depth=3, kinds={"xor": 3, "or": 2, "seq": 2, "and": 1, "loop": 1.2, "evg": .3}, n=(2, 12), prio=0,
             variants=("xor_join", "and_split", "end_join", "mixed"))
    g = model.Gen(r, p)
    while True:
        g = model.Gen(r, p)
        tree = mark(g.tree(r.randint(*p["budget"]), p["depth"]), g.task)
        if model.gateways(tree):
            break
    first_task = i % 3 != 0
    if first_task:
        tree = ["seq", [g.task(), tree]] if tree[0] != "seq" else ["seq", [g.task()] + tree[1]]
    sc = scenario.gen(r, tree=tree, **(dict(p, n=(300, 300), dists=["fix"], dur=(0, 100), cals=("full",), resources=(2, 2), arr_cal=("full",))
                                       if stat else p))
    j = sc["json"]
    case = [attrs.spec(r, "ca%d" % k) for k in range(r.randint(1, 3))]
    j["case_attributes"] = case
    pool = list(case)
    if first_task:
        ts = model.tasks(tree)
        ev = []
        for k in range(r.randint(0, 3)):
            nm = "ev%d" % k
            for t in {ts[0]} | set(r.sample(ts, r.randint(0, min(3, len(ts))))):
                s = attrs.spec(r, nm)
                ev.append((t, s))
                pool.append(s)
        if r.random() < .5:
            gl = attrs.spec(r, "gl0")
            j["global_attributes"] = [gl]
            pool.append(gl)
            if r.random() < .7:
                ev.append((r.choice(ts), dict(gl, values=attrs.discrete(r, [x["key"] for x in gl["values"]]) if gl["type"] == "discrete"
                                              else attrs.continuous(r))))
        by = {}
        for t, s in ev:
            by.setdefault(t, []).append(s)
        if by:
            j["event_attributes"] = [{"event_id": t, "attributes": a} for t, a in by.items()]
    # mixed declarations of one name must be comparable in the same way
    kinds = {}
    for s in pool:
        kinds.setdefault(s["name"], set()).add((s["type"], s["values"][0]["key"].isdigit() if s["type"] == "discrete" else 0))
    pool = [s for s in pool if len(kinds[s["name"]]) == 1]
    rules, defaults, auto = [], {}, {}
    nodes = {n[1]: n for n in model.gateways(tree)}
    for e in j["gateway_branching_probabilities"]:
        n = nodes[e["gateway_id"]]
        ps = e["probabilities"]
        style = r.choice(["all", "all", "all", "some", "none", "none"])
        if n[0] == "loop" and style == "all":
            style = "some" if r.random() < .5 else "all"
        if style == "none":
            z = r.random()
            if z < .25:      # certainty
                k = r.randrange(len(ps))
                if n[0] == "loop":
                    k = [x["path_id"].endswith("exit") for x in ps].index(True)
                for q, x in enumerate(ps):
                    x["value"] = 1 if q == k else 0
            elif z < .5 and len(ps) > 2 and n[0] != "loop":   # one impossible flow
                k = r.randrange(len(ps))
                ps[(k + 1) % len(ps)]["value"] = round(ps[(k + 1) % len(ps)]["value"] + ps[k]["value"], 3)
                ps[k]["value"] = 0
            elif z < .75 and n[0] != "loop":
                for x in r.sample(ps, r.randint(1, len(ps))):
                    del x["value"]
        else:
            cand = ps if style == "all" else r.sample(ps, r.randint(1, len(ps) - 1))
            shared = None
            for x in cand:
                if shared and r.random() < .2:
                    x["condition_id"] = shared
                    continue
                rid = "rule%d" % len(rules)
                rules.append(attrs.rule(r, pool, rid))
                x["condition_id"] = shared = rid
            if r.random() < .25 and n[0] != "loop":   # conditions only: probabilities matter for nothing else
                k = r.randrange(len(ps))
                for q, x in enumerate(ps):
                    x["value"] = int(q == k)
            if n[0] == "or" and len(cand) > 1 and r.random() < .1:   # a condition that is declared nowhere
                k = r.choice(cand)
                k["condition_id"] = "undeclared"
                if r.random() < .7:
                    for x in ps:
                        x["value"] = int(x is k)
            if n[0] == "loop" and any("condition_id" in x and x["path_id"].endswith("back") for x in ps):
                # keep loops finite: repeat at most while the condition on fresh event attributes holds; bounded by the limit
                pass
        if r.random() < .5 and n[0] != "loop":
            defaults[n[1]] = r.choice(ps)["path_id"]
        if any("value" not in x for x in ps):
            auto[n[1]] = True
        if r.random() < .3:
            for x in ps:
                if "value" in x:
                    x["value"] = str(x["value"])
    if rules:
        r.shuffle(rules)
        j["branch_rules"] = rules
    j["gateway_execution_limit"] = 40
    sc["defaults"] = defaults
    for gid, f in defaults.items():
        sc["bpmn"], k = re.subn(r'(<bpmn:\w+Gateway id="%s" name="")' % gid, r'\1 default="%s"' % f, sc["bpmn"])
        assert k == 1
    return sc


def probs(entry):
    ps = entry["probabilities"]
    tot = sum(float(x["value"]) for x in ps if "value" in x)
    miss = sum("value" not in x for x in ps)
    return {x["path_id"]: float(x["value"]) if "value" in x else (1 - tot) / miss for x in ps}


def judge(sc, out):
    v, res = execute(sc, out)
    j = sc["json"]
    nodes = {n[1]: n for n in model.gateways(sc["tree"])}
    ent = {e["gateway_id"]: e for e in j["gateway_branching_probabilities"]}
    rules = {x["id"]: x for x in j.get("branch_rules", [])}
    pr = {g: probs(e) for g, e in ent.items()}
    stop = {}
    for w in res.warnings or []:
        m = re.match(r"Infinite loop was detected in case #(\d+)", w)
        if m:
            stop[int(m.group(1))] = w
    counts, cond_seen = {}, 0
    by = res.log.by_case()
    evn = {a["name"] for e in j.get("event_attributes", []) for a in e["attributes"]}
    gln = {a["name"] for a in j.get("global_attributes", [])}
    for c in range(sc["n"]):
        if c in stop:
            out.obs["terminated_cases"] += 1
            continue
        rows = by.get(c, [])
        if not rows:
            out.bad("missing-case", "case %d has no rows" % c)
            continue
        d = decisions(sc, rows)
        if d is None:
            out.bad("unexplained", "case %d is not a timed run of the model (see C01/C02): %s" % (c, [r["label"] for r in rows]))
            continue
        for gid, dep, t, ch in d[1]:
            if gid not in nodes:
                continue
            n = nodes[gid]
            fl = model.flows(n)
            taken = {fl[k] for k in ch}
            env = rows[0]["attrs"] if dep < 0 else res.log.rows[dep]["attrs"]
            out.obs["decisions"] += 1
            check(sc, out, n, taken, env, ent[gid], rules, pr[gid], sc["defaults"].get(gid), counts, c, dep)
            if any("condition_id" in x for x in ent[gid]["probabilities"]):
                cond_seen += 1
                used = {a["attribute"] for x in ent[gid]["probabilities"] if x.get("condition_id") in rules
                        for ands in rules[x["condition_id"]]["rules"] for a in ands}
                out.obs["event_attribute_decisions"] += bool(used & evn)
                out.obs["global_attribute_decisions"] += bool(used & gln)
    if cond_seen:
        out.sig = repr(j.get("branch_rules")) + shape(sc)
    # (a terminated case hides its later decisions, which would bias the frequencies)
    for key, (tot, cnt, expect, seq) in counts.items() if not stop else ():
        for f, (lo, hi) in expect.items():
            k = cnt.get(f, 0)
            if tot >= 30:
                out.obs["probability_tests"] += 1
            if binom.sf(k - 1, tot, min(1, hi)) < ALPHA or binom.cdf(k, tot, max(0, lo)) < ALPHA:
                out.bad("frequency", "gateway %s flow %s taken %d of %d times, expected probability %.4f" % (key[0], f, k, tot, lo))
            if 15 <= k <= tot - 15:
                out.obs["independence_tests"] += 1
                if law.streaky([f in x for x in seq]):
                    out.bad("dependence", "gateway %s flow %s: the %d of %d visits that take it come in runs that independent choices do not form" % (key[0], f, k, tot))
    out.sample = dict(short(sc, res.log), rules=j.get("branch_rules"), probabilities=j["gateway_branching_probabilities"], defaults=sc["defaults"])


def note(counts, key, taken, expect):
    e = counts.setdefault(key, [0, {}, expect, []])
    e[0] += 1
    e[3].append(taken)
    for f in taken:
        e[1][f] = e[1].get(f, 0) + 1


def check(sc, out, n, taken, env, entry, rules, p, default, counts, c, dep):
    gid, kind = n[1], "or" if n[0] == "or" else "xor"
    cond = {x["path_id"]: rules[x["condition_id"]] for x in entry["probabilities"] if x.get("condition_id") in rules}
    free = {x["path_id"] for x in entry["probabilities"] if "condition_id" in x} - set(cond)
    where = "case %d, gateway %s after row %d, attributes %s" % (c, gid, dep, env)
    if kind == "xor" and len(taken) != 1:
        out.bad("xor", "%s: took %s" % (where, taken))
        return
    true = {f for f, ru in cond.items() if attrs.holds(ru, env)}
    if true:
        if kind == "xor":
            if len(true) > 1:
                s = sum(p[f] for f in true)
                out.obs["xor_many_true_all_zero"] += s == 0
                note(counts, (gid, tuple(sorted(true))), taken, {f: (p[f] / s, p[f] / s) if s else (1 / len(true), 1 / len(true)) for f in true})
            out.obs["xor_one_true" if len(true) == 1 else "xor_many_true"] += 1
            if not taken <= true:
                out.bad("condition", "%s: took %s, but only %s hold" % (where, taken, true))
        else:
            out.obs["or_true" if len(true) == 1 else "or_many_true"] += 1
            if free:
                out.obs["or_undeclared_condition"] += 1
                must = true | {f for f in free if p[f] > 1 - 1e-12}
                if not must <= taken <= true | {f for f in free if p[f] > 1e-12}:
                    out.bad("condition", "%s: took %s, but %s hold and %s have no condition" % (where, taken, true, {f: p[f] for f in free}))
            elif taken != true:
                out.bad("condition", "%s: took %s, but exactly %s hold" % (where, taken, true))
        return
    if (cond or free) and default:
        out.obs[kind + "_none_default"] += 1
        if taken != {default}:
            out.bad("default", "%s: no condition holds, default is %s, took %s" % (where, default, taken))
        return
    out.obs[(kind + "_none_probabilities") if cond else "unconditioned"] += 1
    if any("value" not in x for x in entry["probabilities"]):
        out.obs["shared_remainder"] += 1
    for f in p:
        if p[f] < 1e-12:
            out.obs["zero_probability_flows"] += 1
            if f in taken:
                out.bad("zero-probability", "%s: took %s of probability 0" % (where, f))
        if p[f] > 1 - 1e-12 and f not in taken:
            out.bad("certain-flow", "%s: did not take %s of probability 1" % (where, f))
    if kind == "xor":
        exp = {f: (x, x) for f, x in p.items()}
    else:
        none = 1.0
        for x in p.values():
            none *= 1 - x
        exp = {f: (x, min(1, x / (1 - none) if none < 1 else 1)) for f, x in p.items()}
    note(counts, (gid, None), taken, exp)
