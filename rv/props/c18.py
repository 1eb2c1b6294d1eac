"""C18: priority, resource and event queues behave like their abstract models, driven directly and inside simulations."""
import math, random
from .. import batch, scenario
from ..sim import execute, short

N = {"quick": 14000, "thorough": 84000}
RULE = ("random operation sequences over few elements and priorities (many ties, re-insertions, removals of the least and of inner elements) "
        "are applied to the real queues and to a list-based model, comparing every answer; in one of eight runs the queues of a whole "
        "simulation are shadowed by the models; non-trivial: a sequence with a removal or re-insertion followed by peek or pop; distinct "
        "by the operations")
MUST_SEE = ["inserts", "reinserts", "removals", "pops", "peeks", "pops_of_tie", "pops_when_empty", "peeks_after_removed_head",
            "peeks_after_removed_inner", "resource_pops", "resource_updates", "shared_resources_updated", "nested_resource_sets",
            "simulated_queue_operations", "simulated_resource_pops", "event_pops"]
ASSUME = ["priorities are numbers or tuples of numbers"]


def gen(r, tier, i):
    if i % 8 == 7:
        sc = scenario.gen(r, n=(3, 20), load=r.choice([.05, .5]), resources=(2, 6), depth=3, budget=(2, 8)) if r.random() < .6 else \
            batch.gen(r, batch.FAMS, False, ntasks=(1, 2), alts=(1, 2))
        return {"kind": "sim", "sc": sc}
    kind = ["pq", "res", "pq", "ev", "res"][i % 5]
    p = {"kind": kind, "seed": r.randrange(1 << 31), "len": r.choice([5, 20, 60, 200]), "elems": r.choice([2, 3, 6, 20]),
         "prios": r.choice([1, 2, 5, 1000])}
    if kind == "res":
        n = r.randint(1, 6)
        rs = ["r%d" % k for k in range(n)]
        style = r.choice(["random", "nested", "same", "mixed"])
        m = {}
        for t in range(r.randint(1, 6)):
            if style == "nested":
                s = rs[:1 + t % n]
            elif style == "same":
                s = rs
            else:
                s = r.sample(rs, r.randint(1, n))
            m["t%d" % t] = r.sample(s, len(s))
        p["map"] = m
    return p


class Model:
    """priority queue: list of [element, priority] in order of insertion"""

    def __init__(self):
        self.x = []

    def insert(self, e, p):
        self.x = [q for q in self.x if q[0] != e] + [[e, p]]

    def remove(self, e):
        self.x = [q for q in self.x if q[0] != e]

    def has(self, e):
        return any(q[0] == e for q in self.x)

    def prio(self, e):
        return next((q[1] for q in self.x if q[0] == e), None)

    def least(self):
        return min(self.x, key=lambda q: q[1]) if self.x else [None, None]  # min: the first of equals

    def pop(self):
        b = self.least()
        if self.x:
            self.x.remove(b)
        return b


def judge(p, out):
    {"pq": pq, "res": res, "ev": ev, "sim": sim}[p["kind"]](p, out)


def agree(out, what, got, want, hist):
    if list(got) != list(want):
        out.bad("answer", "%s yields %r, expected %r after %s" % (what, got, want, hist[-12:]))
        return False
    return True


def state(out, q, m, elems, hist):
    if q.size() != len(m.x) or bool(q.is_empty()) != (not m.x):
        out.bad("size", "size %s, empty %s; expected %d elements after %s" % (q.size(), q.is_empty(), len(m.x), hist[-12:]))
        return False
    for e in elems:
        if bool(q.contains(e)) != m.has(e):
            out.bad("membership", "contains(%r) is %s after %s" % (e, q.contains(e), hist[-12:]))
            return False
        if q.get_priority(e) != m.prio(e):
            out.bad("priority", "priority of %r is %r, expected %r after %s" % (e, q.get_priority(e), m.prio(e), hist[-12:]))
            return False
    return True


def pq(p, out):
    from prosimos.simulation_queues_ds import PriorityQueue
    r = random.Random(p["seed"])
    q, m, hist, touched = PriorityQueue(), Model(), [], None
    elems = [("e", k) if r.random() < .3 else "e%d" % k for k in range(p["elems"])]
    tup = r.random() < .4
    for _ in range(p["len"]):
        op = r.choice(["ins", "ins", "ins", "rem", "peek", "pop", "peek"])
        if op == "ins":
            e = r.choice(elems)
            x = r.randrange(p["prios"]) / r.choice([1, 2])
            x = (r.choice([1, 2, math.inf]), x) if tup else x
            out.obs["reinserts" if m.has(e) else "inserts"] += 1
            if m.has(e):
                touched = "head" if m.least()[0] == e else "inner"
            q.insert(e, x)
            m.insert(e, x)
            hist.append("insert(%r, %r)" % (e, x))
        elif op == "rem":
            e = r.choice(elems)
            if not m.has(e):
                continue
            touched = "head" if m.least()[0] == e else "inner"
            q.remove_element(e)
            m.remove(e)
            hist.append("remove(%r)" % (e,))
            out.obs["removals"] += 1
        elif op == "peek":
            hist.append("peek")
            if not agree(out, "peek", q.peek(), m.least(), hist):
                return
            out.obs["peeks"] += 1
            if touched:
                out.obs["peeks_after_removed_" + touched] += 1
                out.sig = ";".join(hist[-40:])
            touched = None
        else:
            hist.append("pop")
            b = m.least()
            out.obs["pops_of_tie"] += sum(x[1] == b[1] for x in m.x) > 1
            out.obs["pops_when_empty"] += not m.x
            if not agree(out, "pop", q.pop_min(), m.pop(), hist):
                return
            out.obs["pops"] += 1
        if not state(out, q, m, elems, hist):
            return
    while m.x:
        hist.append("pop")
        if not agree(out, "pop", q.pop_min(), m.pop(), hist):
            return


class Resources:
    """availability per resource; the offer for a task is the least of its resources"""

    def __init__(self, tasks, avail):
        self.tasks, self.avail = {t: list(rs) for t, rs in tasks.items()}, dict(avail)
        self.out = {t: set() for t in tasks}  # popped from the queue of a set of resources and not updated since

    def key(self, t):
        return [u for u in self.tasks if set(self.tasks[u]) == set(self.tasks[t])]

    def offer(self, t):
        c = [x for x in self.tasks[t] if x not in self.out[t]]
        b = min([self.avail[x] for x in c], default=None)
        return {x for x in c if self.avail[x] == b}, b

    def popped(self, t, x):
        for u in self.key(t):
            self.out[u].add(x)

    def update(self, x, v):
        self.avail[x] = v
        for u in self.tasks:
            self.out[u].discard(x)


def offered(out, what, got, m, t, hist):
    c, b = m.offer(t)
    x, v = got
    if b is None:
        if x is not None:
            out.bad("offer", "%s for %s yields %r although all its resources are taken, after %s" % (what, t, got, hist[-12:]))
            return False
        return True
    if x not in c or v != b:
        out.bad("offer", "%s for %s yields %r; earliest of its resources %s is %s at %r, after %s" % (what, t, got, m.tasks[t], sorted(c), b, hist[-12:]))
        return False
    return True


def res(p, out):
    from prosimos.simulation_queues_ds import DiffResourceQueue
    r = random.Random(p["seed"])
    mp = p["map"]
    rs = sorted({x for s in mp.values() for x in s})
    val = lambda: r.randrange(p["prios"]) / r.choice([1, 4])
    init = {x: val() for x in rs}
    q, m, hist = DiffResourceQueue({t: {x: None for x in s} for t, s in mp.items()}, dict(init)), Resources(mp, init), ["init %s" % init]
    sets = [frozenset(s) for s in mp.values()]
    out.obs["nested_resource_sets"] += any(a < b for a in sets for b in sets)
    for _ in range(p["len"]):
        t = r.choice(sorted(mp))
        if r.random() < .4:
            hist.append("peek(%s)" % t)
            if not offered(out, "peek", q.peek_resource_for(t), m, t, hist):
                return
            continue
        hist.append("pop(%s)" % t)
        got = q.pop_resource_for(t)
        if not offered(out, "pop", got, m, t, hist):
            return
        out.obs["resource_pops"] += 1
        x, v = got
        if x is None:
            continue
        m.popped(t, x)
        if r.random() < .9:
            w = v + val()
            q.update_resource_availability(x, w)
            m.update(x, w)
            hist.append("update(%s, %s)" % (x, w))
            out.obs["resource_updates"] += 1
            if len({frozenset(s) for s in mp.values() if x in s}) > 1:
                out.obs["shared_resources_updated"] += 1
                out.sig = ";".join(hist[-30:])
        elif r.random() < .5:
            y = r.choice(rs)
            w = m.avail[y] + val()
            q.update_resource_availability(y, w)
            m.update(y, w)
            hist.append("update(%s, %s)" % (y, w))


def ev(p, out):
    from prosimos.simulation_queues_ds import EventQueue
    r = random.Random(p["seed"])

    class E:
        def __init__(self, k):
            self.k, self.enabled_at = k, r.randrange(p["prios"])
    q, m, hist = EventQueue(), Model(), []
    for k in range(p["len"]):
        z = r.random()
        if z < .5:
            e, pr = E(k), r.choice([1, 2, 5, math.inf])
            (q.append_arrival_event if r.random() < .5 else q.append_enabled_event)(e, pr)
            m.insert(e, (pr, e.enabled_at))
            hist.append("append(%d: %s, %s)" % (k, pr, e.enabled_at))
            out.obs["inserts"] += 1
        elif z < .75:
            hist.append("peek")
            if not agree(out, "peek", [q.peek()], [m.least()[0]], hist):
                return
            out.obs["peeks"] += 1
        else:
            hist.append("pop")
            out.sig = ";".join(hist[-30:])
            if not agree(out, "pop", [q.pop_next_event()], [m.pop()[0]], hist):
                return
            out.obs["event_pops"] += 1


def sim(p, out):
    """a whole simulation with its queues shadowed by the models"""
    import prosimos.simulation_engine as se
    import prosimos.simulation_queues_ds as ds
    R0, Q0 = se.DiffResourceQueue, ds.PriorityQueue
    hist = []

    class Shadow(Q0):
        def __init__(self, *a):
            super().__init__(*a)
            self._m = Model()

        def insert(self, element, priority=0):
            super().insert(element, priority)
            self._m.insert(element, priority)
            out.obs["simulated_queue_operations"] += 1

        def remove_element(self, element):
            super().remove_element(element)
            self._m.remove(element)

        def pop_min(self):
            got = super().pop_min()
            self.look("pop", got)
            self._m.pop()
            return got

        def peek(self):
            got = super().peek()
            self.look("peek", got)
            return got

        def look(self, what, got):
            out.obs["simulated_queue_operations"] += 1
            want = self._m.least()
            if (got[0] is not want[0] and got[0] != want[0]) or got[1] != want[1]:
                out.bad("simulated-queue", "%s in a simulation yields %r with priority %r, expected %r with %r" % (
                    what, short_(got[0]), got[1], short_(want[0]), want[1]))

    class RShadow(R0):
        def __init__(self, tasks, avail, *a):
            super().__init__(tasks, avail, *a)
            self._r = Resources(tasks, avail)

        def pop_resource_for(self, t):
            got = super().pop_resource_for(t)
            offered(out, "pop in a simulation", got, self._r, t, hist)
            out.obs["simulated_resource_pops"] += 1
            if got[0] is not None:
                self._r.popped(t, got[0])
            return got

        def update_resource_availability(self, x, v):
            super().update_resource_availability(x, v)
            self._r.update(x, v)
    se.DiffResourceQueue, ds.PriorityQueue = RShadow, Shadow
    try:
        v, rs = execute(p["sc"], out)
    finally:
        se.DiffResourceQueue, ds.PriorityQueue = R0, Q0
    out.sig = "sim%d" % len(rs.log.rows)


def short_(e):
    return getattr(e, "task_id", e) and (getattr(e, "p_case", None), getattr(e, "task_id", e))
