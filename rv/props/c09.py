"""C09: attributes evolve only by their declared rules and are logged as of that row."""
import collections
from scipy.stats import binom
from .. import scenario, model, attrs, expr, law
from ..expr import Skip, TINY
from ..sim import execute, shape, short

N = {"quick": 5000, "thorough": 40000}
RULE = ("random models with case, event and global attributes (also the same name declared in several places), event attributes of every "
        "kind (distribution, discrete, transitions, expression, decision table) on several activities, batched activities; the attribute "
        "store is replayed row by row in dispatch order and every attribute column of every row is compared; non-trivial: some event "
        "attribute was updated; distinct by declarations and model shape")
MUST_SEE = ["rows_judged", "case_values", "unchanged_event_values", "unchanged_global_values", "updates_distribution", "updates_discrete",
            "updates_markov", "updates_expression", "updates_dtree", "global_event_updates", "global_case_redraws", "batched_updates",
            "simultaneous_updates", "frequency_tests", "independence_tests", "law_tests", "law_tests_expression", "drawn_in_expression", "interleavings", "duplicate_entries", "never_assigned"]
ASSUME = ["rows are written in dispatch order"]
ALPHA = 1e-11
SETS = [["GOOD", "BAD", "NEW"], ["A", "B"], ["low", "mid", "high"]]


def gen(r, tier, i):
    stat = i % 12 == 0
    batch = i % 3 == 0
    p = dict(n=(2, 14), prio=0, p_event=.15, budget=(2, 7), depth=3, load=r.choice([.1, .5, 1]))
    if stat:
        p.update(n=(200, 200), dists=["fix"], dur=(0, 100), cals=("full",), arr_cal=("full",))
    sc = scenario.gen(r, **p)
    j = sc["json"]
    ts = model.tasks(sc["tree"])
    ty, keys = {}, {}

    def name(prefix):
        n = "%s%d" % (prefix, len(ty))
        ty[n] = r.choice(["num", "num", "str"])
        keys[n] = r.choice(SETS)
        return n

    def base(n):
        if ty[n] == "str":
            return {"name": n, "type": "discrete", "values": attrs.discrete(r, keys[n])}
        return {"name": n, "type": "continuous", "values": attrs.continuous(r)}
    ca = [name("c") for _ in range(r.randint(0, 3))]
    gl = [name("g") for _ in range(r.randint(0, 2))]
    gc = [name("gc") for _ in range(r.randint(0, 1))]
    ge = [name("ge") for _ in range(r.choice([0, 1, 1, 2]))]
    gce = [name("gce") for _ in range(r.choice([0, 0, 1]))]
    ev = [name("e") for _ in range(r.randint(0, 4))]
    if not ca + gc + gce + ev + ge + gl:
        ev.append(name("e"))
    j["case_attributes"] = [base(n) for n in r.sample(ca + gc + gce, len(ca + gc + gce))]
    j["global_attributes"] = [base(n) for n in r.sample(gl + gc + ge + gce, len(gl + gc + ge + gce))]
    nums = [n for n in ty if ty[n] == "num"]
    strs = {n: keys[n] for n in ty if ty[n] == "str"}
    decl, trees = {}, {}
    for n in ge + gce + ev:
        for t in r.sample(ts, r.randint(1, min(3, len(ts)))):
            decl.setdefault(t, []).append(n)
    entries = []
    for t, ns in decl.items():
        r.shuffle(ns)
        a = []
        for n in ns:
            g = expr.Gen(r, nums, strs)
            k = r.random()
            if k < .3:
                a.append(base(n))
            elif ty[n] == "num" and k < .4:
                c = call(r)
                trees["%s/%s" % (t, n)] = c
                x = "%s(%s)" % (c[1], ", ".join(str(x) for x in c[2] + [y for y in c[3:5] if y is not None]))
                a.append({"name": n, "type": "expression", "values": x if (c[5], c[6]) == (1, 0) else "%s * %s + %s" % (c[5], x, c[6])})
            elif ty[n] == "num" and k < .75:
                e = g.num(r.randint(1, 2))
                if r.random() < .3:
                    e = ("bin", "+", ("var", n), ("num", 1))     # a counter
                elif r.random() < .4:
                    e = ("bin", r.choice("+-*"), ("var", r.choice(nums)), ("var", r.choice(nums)))
                trees["%s/%s" % (t, n)] = e
                a.append({"name": n, "type": "expression", "values": expr.text(e, r)})
            elif ty[n] == "str" and k < .7:
                ks = keys[n]
                tr = {x: {q["key"]: q["value"] for q in attrs.discrete(r, r.sample(ks, r.randint(1, len(ks))))}
                      for x in r.sample(ks, r.randint(1, len(ks)))}
                a.append({"name": n, "type": "discrete", "values": tr})
            else:
                rows = []
                for _ in range(r.randint(1, 3)):
                    conds = [g.bool(1) for _ in range(r.randint(1, 2))]
                    f = g.num(1) if ty[n] == "num" else ("str", r.choice(keys[n]))
                    rows.append([conds, f])
                trees["%s/%s" % (t, n)] = rows
                a.append({"name": n, "type": "dtree", "values": [[[expr.text(c, r) for c in cs], expr.text(f, r)] for cs, f in rows]})
        if len(a) > 1 and r.random() < .3:
            k = r.randint(1, len(a) - 1)
            entries += [{"event_id": t, "attributes": a[:k]}, {"event_id": t, "attributes": a[k:]}]
        else:
            entries.append({"event_id": t, "attributes": a})
    r.shuffle(entries)
    j["event_attributes"] = entries
    for s in ("case_attributes", "global_attributes", "event_attributes"):
        if not j[s] and r.random() < .7:
            del j[s]
    if batch:
        b = []
        for t in r.sample(ts, r.randint(1, min(2, len(ts)))):
            k = r.randint(1, 3)
            b.append({"task_id": t, "type": r.choice(["Sequential", "Parallel"]),
                      "size_distrib": [{"key": str(q), "value": 0.0 if q == 1 else 1.0} for q in range(1, k + 2)],
                      "duration_distrib": [{"key": "2", "value": 0.8}],
                      "firing_rules": [[{"attribute": "size", "comparison": r.choice([">=", "="]), "value": max(2, k)}]]})
        j["batch_processing"] = b
    sc["kinds"] = {"c": ca, "g": gl, "gc": gc, "ge": ge, "gce": gce, "e": ev}
    sc["ty"], sc["trees"] = ty, trees
    return sc


def call(r):
    """a drawn number within an expression: ["rnd", law, parameters, minimum, maximum, factor, offset]"""
    lo = r.randint(0, 50)
    hi = lo + r.randint(5, 400)
    m = lo + (hi - lo) * r.choice([.3, .5, .6])
    k = r.choice(["uniform", "norm", "triang", "expon", "lognorm", "gamma", "fix"])
    sd = (hi - lo) / 4
    fs = [1, 0] if r.random() < .6 else [r.choice([1, 2, 0.5, 10]), r.choice([0, 1, 7.5])]
    if k == "fix":
        return ["rnd", k, [lo], None, None] + fs
    p = {"uniform": [], "triang": [m], "expon": [m], "norm": [m, sd], "lognorm": [m, sd ** 2], "gamma": [m, sd ** 2]}[k]
    if k not in ("uniform", "triang"):
        # the bounds can be left out
        lo, hi = r.choice([(lo, hi), (lo, hi), (lo, None), (None, None)])
    return ["rnd", k, p, lo, hi] + fs


def parse(s, t):
    """printed value -> value (None: never assigned)"""
    if s == "":
        return None
    if s in ("True", "False"):
        return s == "True"
    try:
        x = float(s)
        # the smallest number is printed with single precision
        return TINY if abs(x - TINY) < 1e-44 else x
    except ValueError:
        return s


def support(spec, x):
    if spec["type"] == "discrete":
        return any(q["key"] == x and q["value"] > 0 for q in spec["values"])
    try:
        y = float(x)
    except ValueError:
        return False
    lo, hi = scenario.bounds(spec["values"])
    return lo - 1e-9 <= y <= hi + 1e-9


def value_of(spec, tree, pre, name):
    """expected new value; Skip if not decidable; ('in', spec) for draws"""
    if spec["type"] == "continuous" or spec["type"] == "discrete" and isinstance(spec["values"], list):
        return "draw", spec
    env = {k: x for k, x in pre.items() if x is not None}
    if spec["type"] == "discrete":
        cur = pre.get(name)
        tr = spec["values"].get(cur) if isinstance(cur, str) else None
        return ("markov", tr) if tr is not None else ("same", None)
    try:
        if spec["type"] == "expression" and tree[0] == "rnd":
            return "rnd", tree
        if spec["type"] == "expression":
            return "value", expr.value(totuple(tree), env)
        for conds, f in tree:
            if all(bool(expr.ev(totuple(c), env)) for c in conds):
                x = expr.ev(totuple(f), env)
                if isinstance(x, float) and (x != x or abs(x) > 1e37):
                    raise Skip()
                return "value", x
        return "value", 0
    except (KeyError, TypeError):
        raise Skip()


def totuple(e):
    return tuple(e) if isinstance(e, list) else e


def judge(sc, out):
    v, res = execute(sc, out)
    j, K, ty = sc["json"], sc["kinds"], sc["ty"]
    want = set(sum(K.values(), []))
    cols = [h for h in res.log.header[6:] if h != "batch_id"]
    if set(cols) != want or len(cols) != len(want):
        out.bad("columns", "attribute columns %s, declared %s" % (cols, sorted(want)))
        return
    cs = {a["name"]: a for a in j.get("case_attributes", [])}
    gs = {a["name"]: a for a in j.get("global_attributes", [])}
    es = collections.defaultdict(dict)
    seen = set()
    for e in j.get("event_attributes", []):
        out.obs["duplicate_entries"] += e["event_id"] in seen
        seen.add(e["event_id"])
        for a in e["attributes"]:
            es[e["event_id"]][a["name"]] = a
    batched = {b["task_id"] for b in j.get("batch_processing", [])}
    glob = set(K["g"] + K["gc"] + K["ge"] + K["gce"])
    G = {n: Ellipsis for n in glob}          # Ellipsis: drawn, not yet shown
    own, first = {}, set()
    draws = collections.defaultdict(list)
    seqcase = []
    for r in res.log.rows:
        c, shown = r["case"], r["attrs"]
        seqcase.append(c)
        fresh = c not in first
        if fresh:
            first.add(c)
            own[c] = dict({n: None for n in K["e"]}, **{n: Ellipsis for n in K["c"]})
            for n in K["gc"] + K["gce"]:
                G[n] = Ellipsis
                out.obs["global_case_redraws"] += 1
        pre = {**G, **own[c]}
        ups = es.get(r["label"], {}) if not r["is_event"] else {}
        out.obs["rows_judged"] += 1
        out.obs["simultaneous_updates"] += len(ups) > 1
        where = "row %d (case %d, %s)" % (r["idx"], c, r["label"])
        for n in cols:
            s = shown[n]
            x = parse(s, ty[n])
            if n in ups:
                spec = ups[n]
                typ = "markov" if spec["type"] == "discrete" and isinstance(spec["values"], dict) else \
                    {"continuous": "distribution"}.get(spec["type"], spec["type"])
                out.obs["updates_" + typ] += 1
                out.obs["batched_updates"] += r["label"] in batched
                out.obs["global_event_updates"] += n in glob
                out.sig = repr(j.get("event_attributes")) + shape(sc)
                try:
                    if spec["type"] in ("expression", "dtree") and any(y is Ellipsis for y in pre.values()):
                        raise Skip()
                    kind, w = value_of(spec, sc["trees"].get("%s/%s" % (r["label"], n)), pre, n)
                    if kind == "draw":
                        ok = support(w, s)
                        draws[(r["label"], n)].append(s)
                    elif kind == "rnd":
                        out.obs["drawn_in_expression"] += 1
                        _, nm, ps, lo, hi, f, o = w
                        y = (float(s) - o) / f if x is not None and not isinstance(x, bool) else None
                        lo, hi = (ps[0], ps[0]) if nm == "fix" else (lo or 0, float("inf") if hi is None else hi)
                        ok = y is not None and lo - 1e-6 <= y <= hi + 1e-6
                        if ok:
                            draws[(r["label"], n)].append(y)
                    elif pre[n] is Ellipsis and typ == "markov":
                        ok = True
                    elif kind == "markov":
                        ok = w.get(s, 0) > 0
                        draws[(r["label"], n, pre[n])].append(s)
                        w = {"from": pre[n], "to": w}
                    elif kind == "same":
                        w = pre[n]
                        ok = x == w
                    else:
                        ok = expr.same(s, w)
                    out.obs["judged_updates"] += 1
                    if not ok:
                        out.bad("update", "%s: attribute %s becomes %r by %s over %s, expected %s" % (where, n, s, spec, pre, w))
                except Skip:
                    out.obs["skipped_updates"] += 1
            else:
                w = pre[n]
                if w is Ellipsis:
                    spec = cs[n] if n in cs else gs[n]
                    if not support(spec, s):
                        out.bad("draw", "%s: initial value %r of %s is not a value of %s" % (where, s, n, spec))
                    if n in cs:
                        draws[("case", n)].append(s)
                    out.obs["case_values"] += n in K["c"]
                elif x != w:
                    out.bad("leak" if n in glob or n in K["e"] else "case-attribute-changed",
                            "%s: attribute %s shows %r, but its last value is %r and nothing changed it" % (where, n, s, w))
                else:
                    out.obs["never_assigned"] += w is None
                    out.obs["unchanged_event_values" if n in K["e"] else "unchanged_global_values" if n in glob else "case_values"] += 1
            if n in glob:
                G[n] = x
            else:
                own[c][n] = x
        if out.viol:
            break
    out.obs["interleavings"] += sum(a != b for a, b in zip(seqcase, seqcase[1:])) > len(first)
    for key, xs in draws.items():
        if len(xs) < 60:
            continue
        t, n = key[:2]
        spec = cs[n] if t == "case" else es[t][n]
        out.obs["frequency_tests"] += 1
        if spec["type"] == "discrete":
            probs = spec["values"][key[2]] if len(key) > 2 else {q["key"]: q["value"] for q in spec["values"]}
            for q, pr in probs.items():
                k = sum(x == q for x in xs)
                if binom.sf(k - 1, len(xs), pr) < ALPHA or binom.cdf(k, len(xs), pr) < ALPHA:
                    out.bad("frequency", "%s %s: value %s drawn %d of %d times, probability %s" % (t, n, q, k, len(xs), pr))
                out.obs["independence_tests"] += 15 <= k <= len(xs) - 15
                if law.streaky([x == q for x in xs]):
                    out.bad("dependence", "%s %s: value %s, drawn %d of %d times, comes in runs that independent draws do not form" % (t, n, q, k, len(xs)))
            continue
        if spec["type"] == "expression":
            _, nm, ps, lo, hi, _, _ = sc["trees"]["%s/%s" % (t, n)]
            f = None if nm == "fix" else law.cdf(nm, ps, lo, hi)
        else:
            f = law.of(spec["values"])
        if f is not None:
            out.obs["law_tests_expression" if spec["type"] == "expression" else "law_tests"] += 1
            xs = [float(x) for x in xs]
            if law.unlike(xs, f) or law.dependent(xs):
                out.bad("frequency", "%s %s: %d values do not look drawn from %s: %s.." % (t, n, len(xs), spec["values"], xs[:5]))
    out.sample = dict(short(sc, res.log), event_attributes=j.get("event_attributes"))
