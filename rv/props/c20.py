"""C20: expression and decision-table attributes evaluate like the arithmetic they denote."""
import copy, random
import numpy as np
from .. import expr
from ..expr import Skip
from ..run import quiet

N = {"quick": 15000, "thorough": 90000}
RULE = ("random expressions (arithmetic, comparisons incl. chained, boolean connectives, math functions, strings) and decision tables are "
        "evaluated by the real attribute classes over random attribute values and compared with an independent evaluator; "
        "non-trivial: value judged; distinct by expression text")
MUST_SEE = ["judged_expressions", "judged_tables", "zero_division", "no_row_matches", "first_of_many_rows", "clamped", "boolean_results",
            "chained_comparisons", "distribution_calls", "undefined_function_values", "overflow"]
ASSUME = ["expressions use the documented operators, numbers, strings, declared attributes and functions of the math module",
          "cases where double rounding could decide a comparison are not judged"]
PER = 12


def gen(r, tier, i):
    return {"seed": r.randrange(1 << 40)}


def envs(r):
    nums = {"a%d" % k: r.choice([0, 1, -1, 2, 3.5, -7.25, 10, 1000, 0.001, r.uniform(-100, 100), r.randint(-50, 50), 1e20, -1e25, 1e300])
            for k in range(3)}
    strs = {"s0": r.choice(["GOOD", "BAD"]), "s1": r.choice(["1", "NEW", ""])}
    return nums, strs


def interesting(r, g):
    """expressions near the limits"""
    k = r.randrange(7)
    if k == 0:
        return ("bin", "/", g.num(1), ("bin", "-", ("var", "a0"), ("var", "a0")))
    if k == 1:
        return ("bin", "*", ("bin", "*", ("var", "a0"), ("num", 1e30)), ("num", 1e30))
    if k == 2:
        return ("bin", "**", ("bin", "+", ("call", "fabs", [("var", "a1")]), ("num", 10.5)), ("num", r.choice([30, 300, 399])))
    if k == 3:
        return ("bin", "**", ("neg", ("bin", "+", ("call", "fabs", [("var", "a1")]), ("num", 1))), ("num", r.choice([0.5, 1.5, 3, 2, -1])))
    if k == 4:
        return ("call", r.choice(["sqrt", "log", "asin", "acos", "log10"]), [("neg", ("bin", "+", ("call", "fabs", [("var", "a1")]), ("num", 2)))])
    if k == 5:
        return ("call", "exp", [("bin", "*", ("call", "fabs", [("var", "a2")]), ("num", 1000))])
    return ("bin", "%", g.num(1), ("num", 0))


def judge(p, out):
    from prosimos.event_attributes import EventAttribute
    r = random.Random(p["seed"])
    texts = []
    for _ in range(PER):
      with quiet():
        nums, strs = envs(r)
        # sampled attributes are numpy scalars
        env = dict({k: np.float64(x) if r.random() < .4 else x for k, x in nums.items()}, **strs)
        g = expr.Gen(r, nums, {"s0": ["GOOD", "BAD"], "s1": ["1", "NEW"]})
        kind = r.choice(["num", "num", "bool", "edge", "table", "table", "dist"])
        before = {k: x.item() if isinstance(x, np.generic) else x for k, x in env.items()}
        if kind == "dist":
            dist(r, g, env, out, EventAttribute)
            continue
        if kind == "table":
            rows, picked, unsure = [], None, False
            many = 0
            for _ in range(r.randint(1, 4)):
                conds = True if r.random() < .1 else [g.bool(1) for _ in range(r.randint(1, 3))]
                f = g.num(2) if r.random() < .7 else ("str", r.choice(["GOOD", "HIGH"]))
                rows.append([conds if conds is True else [expr.text(c, r) for c in conds], expr.text(f, r)])
                if unsure:
                    continue
                try:
                    hold = conds is True or all(bool(expr.ev(c, env)) for c in conds)
                except Skip:
                    if picked is None:
                        unsure = True
                    continue
                if hold:
                    many += 1
                    if picked is None:
                        picked = f
            if unsure and picked is None:
                continue
            at = EventAttribute("t", "x", "dtree", rows)
            got = at.get_next_value(env)
            try:
                want = expr.ev(picked, before) if picked is not None else 0
            except Skip:
                continue
            if isinstance(want, float) and (want != want or abs(want) > 1e38):
                continue
            out.obs["judged_tables"] += 1
            out.obs["no_row_matches"] += picked is None
            out.obs["first_of_many_rows"] += many > 1
            what = rows
        else:
            e = interesting(r, g) if kind == "edge" else g.num(r.randint(1, 4)) if kind == "num" else g.bool(2)
            s = expr.text(e, r)
            at = EventAttribute("t", "x", "expression", s)
            got = at.get_next_value(env)
            try:
                want = expr.value(e, before)
            except Skip:
                out.obs["not_judged"] += 1
                continue
            out.obs["judged_expressions"] += 1
            out.obs["boolean_results"] += isinstance(want, bool)
            out.obs["clamped"] += not isinstance(want, (bool, str)) and abs(want) > 1e38
            out.obs["overflow"] += kind == "edge" and "**" in s and not isinstance(want, bool) and abs(want) > 1e38
            out.obs["zero_division"] += kind == "edge" and "/ (" in s
            out.obs["undefined_function_values"] += kind == "edge" and e[0] == "call" and want == 0
            what = s
            stack = [e]
            while stack:
                x = stack.pop()
                if isinstance(x, (list, tuple)):
                    if len(x) == 3 and x[0] == "cmp" and len(x[1]) > 1:
                        out.obs["chained_comparisons"] += 1
                    stack.extend(y for y in x if isinstance(y, (list, tuple)))
        if not expr.same(got, want):
            out.bad("value", "%r over %s evaluates to %r, expected %r" % (what, before, got, want))
        if env != before:
            out.bad("side-effect", "evaluating %r changed the attributes %s to %s" % (what, before, env))
        texts.append(str(what))
        out.sample = {"expression": what, "env": before, "value": str(got)}
    if texts:
        out.sig = "|".join(texts)


def dist(r, g, env, out, EventAttribute):
    k = r.choice(["uniform", "fix", "norm", "triang", "expon"])
    a, b = sorted([r.randint(0, 50), r.randint(51, 200)])
    m = (a + b) / 2
    s = {"uniform": "uniform(%d, %d)" % (a, b), "fix": "fix(%d)" % a, "norm": "norm(%s, %s, %d, %d)" % (m, (b - a) / 4, a, b),
         "triang": "triang(%s, %d, %d)" % (m, a, b), "expon": "expon(%s, %d, %d)" % (a + (b - a) / 3, a, b)}[k]
    c = r.randint(1, 5)
    got = EventAttribute("t", "x", "expression", "%s * %d" % (s, c)).get_next_value(env)
    out.obs["distribution_calls"] += 1
    lo, hi = (a, a) if k == "fix" else (a, b)
    if not (isinstance(got, (int, float)) or hasattr(got, "dtype")) or not lo * c - 1e-6 <= float(got) <= hi * c + 1e-6:
        out.bad("value", "%s * %d evaluates to %r, outside [%s, %s]" % (s, c, got, lo * c, hi * c))
