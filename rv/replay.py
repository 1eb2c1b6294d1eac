"""Replay of one case's log rows on its process tree (the C01/C02 specification).

A leaf takes the next row of its (unique) label.  `timed` additionally demands that the row's enable time is the
completion time of its control-flow predecessor.  match() yields every explanation lazily.
"""
TOL = 2_000  # us
LIMIT = 200_000


class TooHard(Exception):
    pass


class Replay:
    def __init__(self, tree, rows, timed, tol=TOL, decisions=False):
        """rows: list of dicts with label, idx, en, st, co (us)"""
        self.tree, self.timed, self.tol = tree, timed, tol
        self.by = {}
        for r in rows:
            self.by.setdefault(r["label"], []).append(r)
        self.total = len(rows)
        self.info = {}
        self.decisions = decisions
        self.scope = {}   # label -> (labels of its innermost concurrent branch, their row indexes in order)
        self._prep(tree)
        self._scopes(tree, self.info[id(tree)][0])
        self.steps = 0
        self.deepest = 0

    def _prep(self, n):
        """labels below each node and whether it can execute nothing"""
        if n is None:
            return set(), True
        k = n[0]
        if k in ("task", "event"):
            v = {n[1]}, False
        elif k == "seq":
            c = [self._prep(x) for x in n[1]]
            v = set().union(*[x[0] for x in c]), all(x[1] for x in c)
        elif k in ("xor", "or", "and"):
            c = [self._prep(x) for x in n[2]]
            v = set().union(*[x[0] for x in c]), (all if k == "and" else any)(x[1] for x in c)
        elif k == "loop":
            c = [self._prep(n[2]), self._prep(n[3])]
            v = c[0][0] | c[1][0], c[0][1]
        else:
            c = [self._prep(x[1]) for x in n[2]]
            v = set().union(*[x[0] for x in c]) | {x[0] for x in n[2]}, False
        self.info[id(n)] = v
        return v

    def _scopes(self, n, labels):
        if n is None:
            return
        k = n[0]
        if k in ("task", "event"):
            self._set_scope(n[1], labels)
        elif k == "seq":
            for c in n[1]:
                self._scopes(c, labels)
        elif k in ("xor", "and", "or"):
            for c in n[2]:
                if c is not None:
                    self._scopes(c, labels if k == "xor" else self.info[id(c)][0])
        elif k == "loop":
            self._scopes(n[2], labels)
            self._scopes(n[3], labels)
        else:
            for e, c in n[2]:
                self._set_scope(e, labels)
                self._scopes(c, labels)

    def _set_scope(self, label, labels):
        self.scope[label] = (labels, sorted(r["idx"] for l in labels for r in self.by.get(l, ())))

    def exhausted(self, n, pos):
        return all(pos.get(l, 0) >= len(self.by.get(l, ())) for l in self.info[id(n)][0])

    def leaf(self, label, t, dep, pos, used):
        rows = self.by.get(label)
        k = pos.get(label, 0)
        if not rows or k >= len(rows):
            return
        row = rows[k]
        if row["idx"] <= dep:
            return
        labels, order = self.scope[label]
        if order[sum(pos.get(l, 0) for l in labels)] != row["idx"]:
            return  # a branch without concurrency executes its rows in dispatch order
        if self.timed and abs(row["en"] - t) > self.tol:
            return
        p = dict(pos)
        p[label] = k + 1
        p["#"] = p.get("#", 0) + 1
        self.deepest = max(self.deepest, len(used) + 1)
        yield row["co"], row["idx"], p, used + ((row["idx"], dep, t),)

    def match(self, n, t, dep, pos, used):
        """yields (t_out, dep_out, pos, used); used = tuple of (row idx, idx of last enabling row, enabled at)"""
        self.steps += 1
        if self.steps > LIMIT:
            raise TooHard()
        if n is None:
            yield t, dep, pos, used
            return
        k = n[0]
        if self.exhausted(n, pos):
            if self.info[id(n)][1]:
                yield t, dep, pos, used
            return
        if k in ("task", "event"):
            yield from self.leaf(n[1], t, dep, pos, used)
        elif k == "seq":
            yield from self.seq(n[1], 0, t, dep, pos, used)
        elif k == "xor":
            for i, c in sorted(enumerate(n[2]), key=lambda x: x[1] is None):
                yield from self.match(c, t, dep, pos, self.note(used, n[1], dep, t, (i,)))
        elif k == "evg":
            for i, (ev, c) in enumerate(n[2]):
                for a in self.leaf(ev, t, dep, pos, self.note(used, n[1], dep, t, (i,))):
                    yield from self.match(c, *a)
        elif k == "and":
            yield from self.par(n[2], 0, t, dep, pos, used, t, dep, False, (), n[1])
        elif k == "or":
            yield from self.par(n[2], 0, t, dep, pos, used, t, dep, True, (), n[1])
        elif k == "loop":
            yield from self.loop(n, t, dep, pos, used)

    def seq(self, ch, i, t, dep, pos, used):
        if i == len(ch):
            yield t, dep, pos, used
            return
        for a in self.match(ch[i], t, dep, pos, used):
            yield from self.seq(ch, i + 1, *a)

    def par(self, ch, i, t0, d0, pos, used, tm, dm, optional, taken, g):
        if i == len(ch):
            if not optional or taken:
                yield tm, dm, pos, (self.note(used, g, d0, t0, taken) if optional else used)
            return
        for t, d, p, u in self.match(ch[i], t0, d0, pos, used):
            yield from self.par(ch, i + 1, t0, d0, p, u, max(tm, t), max(dm, d), optional, taken + (i,), g)
        if optional:
            yield from self.par(ch, i + 1, t0, d0, pos, used, tm, dm, optional, taken, g)

    def note(self, used, g, dep, t, choice):
        """remembers a decision: gateway, last row before it, its instant, branches taken"""
        return used + ((g, dep, t, choice),) if self.decisions else used

    def loop(self, n, t, dep, pos, used):
        for a in self.match(n[2], t, dep, pos, used):
            back = a[:3] + (self.note(a[3], n[1], a[1], a[0], (1,)),)
            for b in self.match(n[3], *back):
                if b[2].get("#", 0) > pos.get("#", 0):
                    yield from self.loop(n, *b)
            yield a[:3] + (self.note(a[3], n[1], a[1], a[0], (0,)),)

    def run(self, t0):
        """one complete explanation or None; raises TooHard"""
        import sys
        if sys.getrecursionlimit() < 20000:
            sys.setrecursionlimit(20000)
        for t, d, p, u in self.match(self.tree, t0, -1, {}, ()):
            if p.get("#", 0) == self.total:
                return u
        return None
