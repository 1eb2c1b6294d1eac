"""C16: loops are bounded by the gateway execution limit, per case and per gateway."""
import re
from .. import model, scenario
from ..sim import execute, shape, short

N = {"quick": 4000, "thorough": 50000}
RULE = ("random models with loops around and inside splits, high repetition probabilities and small limits (also the default of 1000); every "
        "case is walked through the model, counting the executions of every split, and compared with the warnings; non-trivial: a case "
        "was terminated and another one of the same run completed; distinct by model shape and limit")
MUST_SEE = ["terminated_cases", "complete_cases", "completed_exactly_at_limit", "default_limit", "terminated_in_concurrency",
            "terminated_at_nested_loop", "terminated_at_inner_split", "terminated_at_first_gateway", "limit_1"]
ASSUME = ["work that was already enabled when its case is terminated may still be executed"]
TOL = 1000


def gen(r, tier, i):
    if i % 60 == 11:
        tree = r.choice([["loop", "g1", ["task", "t1"], None], ["loop", "g1", ["xor", "g2", [["task", "t1"], ["task", "t2"]]], ["task", "t3"]]])
        k = 1
        sc = scenario.gen(r, tree=tree, n=(k, k), prio=0, dists=["fix"], dur=(2, 50), p_drawing=0)
        for g in sc["json"]["gateway_branching_probabilities"]:
            if g["gateway_id"] == "g1":
                for x in g["probabilities"]:
                    x["value"] = 1.0 if x["path_id"] == model.flows(tree)[1] else 0.0
        sc["limit"] = 1000
        if r.random() < .5:
            sc["json"]["gateway_execution_limit"] = 1000
        return sc
    while True:
        sc = scenario.gen(r, n=(1, 12), kinds={"seq": 3, "xor": 2, "and": 1.5, "or": 1, "loop": 3, "evg": .7, "leaf": .3},
                          p_skip=0, p_drawing=0, p_event=.1, dur=(5, 4000), p_loop_back=r.choice([.3, .6, .95]),
                          budget=(2, r.choice([3, 6, 9])), arr_dists=("fix", "uniform", "expon"))
        if model.gateways(sc["tree"], ("loop",)) or r.random() < .1:
            break
    sc["limit"] = r.choice([1, 1, 2, 2, 3, 4, 6, 10]) if r.random() < .97 else 0
    sc["json"]["gateway_execution_limit"] = sc["limit"]
    return sc


class Walk:
    def __init__(self, rows, limit, choices=()):
        self.choices, self.taken = list(choices), []  # repetition or exit, where rows of the repetition could follow both
        self.q = {}
        for r in rows:
            self.q.setdefault(r["label"], []).append(r)
        self.limit, self.count = limit, {}
        self.stops, self.enab = [], []

    def head(self, lab, t):
        q = self.q.get(lab)
        return bool(q) and abs(q[0]["en"] - t) <= TOL

    def starts(self, n, t):
        """does a row start the subtree n at instant t?"""
        k = n[0]
        if k in ("task", "event"):
            return self.head(n[1], t)
        if k == "seq":
            return self.starts(n[1][0], t)
        if k in ("xor", "and", "or"):
            return any(self.starts(c, t) for c in n[2])
        if k == "loop":
            return self.starts(n[2], t)
        if k == "evg":
            return any(self.head(e, t) for e, _ in n[2])

    def visit(self, g, d):
        if self.count.get(g, 0) >= self.limit:
            self.stops.append(("limit", g, d))
            return False
        self.count[g] = self.count.get(g, 0) + 1
        return True

    def choose(self):
        k = len(self.taken)
        self.taken.append(self.choices[k] if k < len(self.choices) else True)
        return self.taken[-1]

    def lost(self, what, d):
        self.stops.append(("lost", what, d))

    def run(self, n, t, d):
        """(instant, dispatch index) at which the subtree completes, or None"""
        k = n[0]
        if k in ("task", "event"):
            if not self.head(n[1], t):
                return self.lost(n[1], d)
            r = self.q[n[1]].pop(0)
            self.enab.append((r["idx"], d))
            return r["co"], r["idx"]
        if k == "seq":
            for c in n[1]:
                x = self.run(c, t, d)
                if x is None:
                    return None
                t, d = x
            return t, d
        if k == "loop":
            while True:
                x = self.run(n[2], t, d)
                if x is None:
                    return None
                t, d = x
                if not self.visit(n[1], d):
                    return None
                if self.starts(n[3] or n[2], t) and self.choose():
                    if n[3]:
                        x = self.run(n[3], t, d)
                        if x is None:
                            return None
                        t, d = x
                    continue
                return t, d
        if not self.visit(n[1], d):
            return None
        if k == "evg":
            for e, c in n[2]:
                if self.head(e, t):
                    x = self.run(["event", e], t, d)
                    return x if c is None or x is None else self.run(c, *x)
            return self.lost(n[1], d)
        ch = n[2] if k == "and" else [c for c in n[2] if self.starts(c, t)]
        if not ch:
            return self.lost(n[1], d)
        if k == "xor":
            return self.run(ch[0], t, d)
        res = [self.run(c, t, d) for c in ch]
        if None in res:
            return None
        return max(x[0] for x in res), max(x[1] for x in res)


def first(n):
    """gateways that a token entering the subtree may visit before any activity"""
    k = n[0]
    if k in ("task", "event"):
        return set()
    if k == "seq":
        return first(n[1][0])
    if k == "loop":
        return first(n[2])
    if k == "evg":
        return {n[1]}
    return {n[1]}.union(*[first(c) for c in n[2]])


def immediate(tree):
    """gateways that can follow a repetition or choice without an activity in between"""
    out = set()
    for n in model.walk(tree):
        if n[0] == "loop":
            out |= first(n[3] or n[2])
        if n[0] in ("xor", "or"):
            out |= set().union(*[first(c) for c in n[2]])
    return out


def best(tree, rows, lim, ws, imm):
    """explanation of a case with the least to complain about, and the complaints"""
    todo, first_bad, n = [[]], None, 0
    while todo:
        n += 1
        if n > 300:
            return None, None
        ch = todo.pop()
        w = Walk(rows, lim, ch)
        done = w.run(tree, min(r["en"] for r in rows) if rows else 0, -1)
        bad = complaints(w, done, lim, ws, imm)
        if not bad:
            return w, bad
        first_bad = first_bad or (w, bad)
        for k in range(len(ch), len(w.taken)):
            todo.append(w.taken[:k] + [not w.taken[k]])
    return first_bad


def complaints(w, done, lim, ws, imm):
    left = [r["label"] for q in w.q.values() for r in q]
    if not ws:
        st = [s for s in w.stops if s[0] == "limit"]
        if st:
            return [("limit-exceeded", "gateway %s is executed more than %d times" % (st[0][1], lim))]
        if done is None or left:
            return [("incomplete", "not terminated, but stopped at %s, unexplained %s" % (w.stops, left))]
        return []
    g = ws[0]
    bad = []
    if len(ws) > 1:
        bad.append(("warned-twice", "terminated %d times, at %s" % (len(ws), ws)))
    if w.count.get(g, 0) != lim:
        bad.append(("wrong-count", "terminated at %s after %d executions of it" % (g, w.count.get(g, 0))))
    if done is not None and g not in imm:
        bad.append(("not-terminated", "completed although terminated at %s" % g))
    if left:
        bad.append(("after-limit", "activities executed after the termination or not explained: %s" % left))
    at = [d for k, x, d in w.stops if k == "limit" and x == g]
    late = [i for i, d in w.enab if at and d > at[0]]
    if late:
        bad.append(("after-limit", "rows %s were enabled after the termination at %s" % (late, g)))
    return bad


def judge(sc, out):
    v, res = execute(sc, out)
    lim = sc["limit"]
    warned = {}
    for w in res.warnings or []:
        if "nfinite loop" in w or "erminated" in w:
            m = re.search(r"case #?(\d+) on element (\S+?)\.? ", w + " ")
            if not m:
                out.bad("warning", "warning names no case and gateway: %r" % w)
                continue
            warned.setdefault(int(m.group(1)), []).append(m.group(2))
    by = res.log.by_case()
    kinds = {n[1]: n[0] for n in model.walk(sc["tree"]) if n[0] in ("xor", "and", "or", "loop", "evg")}
    nested = {m[1] for n in model.walk(sc["tree"]) if n[0] == "loop" for m in model.walk(n) if m is not n and m[0] == "loop"}
    conc = {m[1] for n in model.walk(sc["tree"]) if n[0] in ("and", "or") for m in model.walk(n) if m is not n and m[0] in kinds.values()}
    for c in set(warned) - set(range(sc["n"])):
        out.bad("warning", "warning about case %d, which was not simulated" % c)
    imm = immediate(sc["tree"])
    ok = term = 0
    for c in range(sc["n"]):
        rows = sorted(by.get(c, []), key=lambda r: r["idx"])
        ws = warned.get(c, [])
        for g in ws:
            if g not in kinds:
                out.bad("warning", "case %d: warning about %r, which is no gateway of the model" % (c, g))
                return
        if not rows and not ws:
            out.bad("lost", "case %d of %d has no rows and no warning" % (c, sc["n"]))
            continue
        w, bad = best(sc["tree"], rows, lim, ws, imm)
        if w is None:
            out.obs["too_many_explanations"] += 1
            continue
        for k, m in bad:
            out.bad(k, "case %d (limit %d, executions %s, rows %s): %s" % (c, lim, w.count, [r["label"] for r in rows][:40], m))
        if bad:
            continue
        if not ws:
            ok += 1
            out.obs["complete_cases"] += 1
            out.obs["completed_exactly_at_limit"] += lim in w.count.values()
            continue
        term += 1
        g = ws[0]
        out.obs["terminated_cases"] += 1
        out.obs["terminated_in_concurrency"] += g in conc
        out.obs["terminated_at_nested_loop"] += g in nested
        out.obs["terminated_at_inner_split"] += kinds[g] != "loop"
        out.obs["terminated_at_first_gateway"] += len(w.count) <= 1
        out.obs["limit_1"] += lim == 1
        out.obs["default_limit"] += "gateway_execution_limit" not in sc["json"]
    if ok and term:
        out.sig = shape(sc) + str(lim)
    out.sample = short(sc, res.log)
