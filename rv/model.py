"""Process trees, their BPMN drawings and structural helpers.

Tree nodes: ["task", id] ["event", id] ["seq", [..]] ["xor", gid, [child|None..]] ["and", gid, [..]]
["or", gid, [..]] ["loop", gid, body, redo|None] ["evg", gid, [[event_id, child|None]..]]
"""
import random
from xml.sax.saxutils import quoteattr

NS = "http://www.omg.org/spec/BPMN/20100524/MODEL"


class Gen:
    """Random process trees."""

    def __init__(self, rng, p):
        self.r, self.p = rng, p
        self.nt = self.ne = self.ng = 0

    def task(self):
        self.nt += 1
        return ["task", "t%d" % self.nt]

    def eid(self):
        self.ne += 1
        return "e%d" % self.ne

    def gid(self):
        self.ng += 1
        return "g%d" % self.ng

    def leaf(self):
        if self.r.random() < self.p.get("p_event", 0.0):
            return ["event", self.eid()]
        return self.task()

    def tree(self, budget, depth, inloop_conc=False, inloop=False):
        r, p = self.r, self.p
        if budget <= 1 or depth <= 0:
            return self.leaf()
        kinds = dict(p.get("kinds", {"seq": 3, "xor": 2, "and": 2, "or": 1.5, "loop": 1, "evg": 0.5, "leaf": .5}))
        if budget < 2:
            kinds.pop("seq", None)
        k = r.choices(list(kinds), weights=list(kinds.values()))[0]
        if k == "leaf":
            return self.leaf()
        if k == "seq":
            n = r.randint(2, min(4, budget))
            return ["seq", [self.tree(b, depth - 1, inloop_conc, inloop) for b in split(r, budget, n)]]
        if k in ("xor", "and", "or"):
            g = self.gid()
            n = r.randint(2, min(p.get("max_branch", 4), max(2, budget)))
            conc = inloop_conc or (inloop and k in ("and", "or"))
            ch = [self.tree(b, depth - 1, conc, inloop) for b in split(r, max(budget, n), n)]
            if r.random() < p.get("p_skip", 0.25):
                ch[r.randrange(n)] = None
            return [k, g, ch]
        if k == "loop":
            g = self.gid()
            redo = None
            if budget >= 2 and r.random() < .5:
                b1 = max(1, budget // 2)
                body = self.tree(budget - b1, depth - 1, inloop_conc, True)
                redo = self.tree(b1, depth - 1, inloop_conc, True)
            else:
                body = self.tree(budget, depth - 1, inloop_conc, True)
            return ["loop", g, body, redo]
        if k == "evg":
            g = self.gid()
            n = r.randint(2, 3)
            ch = []
            for b in split(r, max(budget, n), n):
                ch.append([self.eid(), self.tree(b, depth - 1, inloop_conc, inloop) if r.random() < .7 else None])
            return ["evg", g, ch]


def split(r, total, n):
    parts = [1] * n
    for _ in range(max(0, total - n)):
        parts[r.randrange(n)] += 1
    return parts


def walk(t):
    if t is None:
        return
    yield t
    k = t[0]
    if k == "seq":
        for c in t[1]:
            yield from walk(c)
    elif k in ("xor", "and", "or"):
        for c in t[2]:
            yield from walk(c)
    elif k == "loop":
        yield from walk(t[2])
        yield from walk(t[3])
    elif k == "evg":
        for _, c in t[2]:
            yield from walk(c)


def tasks(t):
    return [n[1] for n in walk(t) if n[0] == "task"]


def events(t):
    out = [n[1] for n in walk(t) if n[0] == "event"]
    for n in walk(t):
        if n[0] == "evg":
            out += [e for e, _ in n[2]]
    return out


def gateways(t, kinds=("xor", "or", "loop")):
    return [n for n in walk(t) if n[0] in kinds]


def flows(node):
    """outgoing flow ids of a split, by branch (loop: [exit, back])"""
    k, g = node[0], node[1]
    if k == "loop":
        return [g + "_exit", g + "_back"]
    return ["%s_f%d" % (g, i) for i in range(len(node[2]))]


XML = {"task": "task", "start": "startEvent", "end": "endEvent", "xor": "exclusiveGateway", "and": "parallelGateway",
       "or": "inclusiveGateway", "evg": "eventBasedGateway", "event": "intermediateCatchEvent"}


class Drawing:
    """BPMN graph of a tree; `variants` selects alternative drawings of the same behaviour."""

    def __init__(self, tree, names=None, rng=None, variants=(), ends="end"):
        self.names = names or {}
        self.nodes = {}  # id -> type
        self.edges = []  # [id, src, tgt]
        self.ne = 0
        self.node("start", "start")
        self.node("end", "end")
        x = self.build(tree, "start", None)
        self.edge(x[0], "end", x[1])
        if rng:
            self.vary(rng, variants)

    def node(self, i, t):
        self.nodes[i] = t
        return i

    def edge(self, s, t, eid=None):
        if eid is None:
            self.ne += 1
            eid = "f%d" % self.ne
        self.edges.append([eid, s, t])

    def build(self, t, src, eid):
        """append t after (src, pending edge id); return the new (src, pending edge id)"""
        if t is None:
            return src, eid
        k = t[0]
        if k in ("task", "event"):
            self.edge(src, self.node(t[1], k), eid)
            return t[1], None
        if k == "seq":
            for c in t[1]:
                src, eid = self.build(c, src, eid)
            return src, eid
        g = t[1]
        if k in ("xor", "and", "or"):
            self.edge(src, self.node(g, k), eid)
            j = self.node(g + "_j", k)
            for i, c in enumerate(t[2]):
                s, e = self.build(c, g, "%s_f%d" % (g, i))
                self.edge(s, j, e)
            return j, None
        if k == "loop":
            j = self.node(g + "_j", "xor")
            self.edge(src, j, eid)
            s, e = self.build(t[2], j, None)
            self.node(g, "xor")
            self.edge(s, g, e)
            s, e = self.build(t[3], g, g + "_back")
            self.edge(s, j, e)
            return g, g + "_exit"
        if k == "evg":
            self.edge(src, self.node(g, "evg"), eid)
            j = self.node(g + "_j", "xor")
            for i, (ev, c) in enumerate(t[2]):
                self.edge(g, self.node(ev, "event"), "%s_f%d" % (g, i))
                s, e = self.build(c, ev, None)
                self.edge(s, j, e)
            return j, None

    def ins(self, n):
        return [e for e in self.edges if e[2] == n]

    def outs(self, n):
        return [e for e in self.edges if e[1] == n]

    def drop_out(self, n):
        """remove node n with one outgoing edge, redirecting its incoming edges"""
        (o,) = self.outs(n)
        for e in self.ins(n):
            e[2] = o[2]
        self.edges.remove(o)
        del self.nodes[n]

    def drop_in(self, n):
        (i,) = self.ins(n)
        for e in self.outs(n):
            e[1] = i[1]
        self.edges.remove(i)
        del self.nodes[n]

    def vary(self, r, variants):
        for n in sorted(self.nodes):
            if n not in self.nodes:
                continue
            t = self.nodes[n]
            i, o = self.ins(n), self.outs(n)
            if t in ("xor", "and", "or") and len(i) > 1 and len(o) == 1:
                nxt = o[0][2]
                srcs = [e[1] for e in i]
                keep = o[0][0].endswith(("_exit", "_back")) or "_f" in o[0][0]
                if keep:
                    continue
                nt = self.nodes[nxt]
                if nt in ("task", "event", "evg") and t == "xor" and "xor_join" in variants and len(self.ins(nxt)) == 1 and r.random() < .6:
                    self.drop_out(n)
                elif nt == "end" and "end_join" in variants and r.random() < .6:
                    self.drop_out(n)
                elif nt == t and len(self.ins(nxt)) == 1 and len(self.outs(nxt)) > 1 and "mixed" in variants and r.random() < .6:
                    self.drop_out(n)
            elif t == "and" and len(o) > 1 and len(i) == 1 and "and_split" in variants:
                src = i[0][1]
                if self.nodes[src] in ("task", "event", "start") and len(self.outs(src)) == 1 and r.random() < .6:
                    self.drop_in(n)
        r.shuffle(self.edges)
        ks = list(self.nodes)
        r.shuffle(ks)
        self.nodes = {k: self.nodes[k] for k in ks}

    def has_fakes(self):
        out = []
        for n, t in self.nodes.items():
            i, o = len(self.ins(n)), len(self.outs(n))
            if t in ("task", "event", "evg") and i > 1:
                out.append("xor_join" if t == "task" else t + "_join")
            if t in ("task", "event", "start") and o > 1:
                out.append("and_split" if t == "task" else t + "_split")
            if t == "end" and i > 1:
                out.append("end_join")
            if t in ("xor", "and", "or") and i > 1 and o > 1:
                out.append("mixed")
        return out

    def xml(self, defaults=None):
        defaults = defaults or {}
        out = ['<?xml version="1.0" encoding="UTF-8"?>',
               '<bpmn:definitions xmlns:bpmn="%s" id="d" targetNamespace="http://bpmn.io/schema/bpmn">' % NS,
               '<bpmn:process id="P" isExecutable="false">']
        for n, t in self.nodes.items():
            nm = self.names.get(n, n if t in ("task", "event", "start", "end") else "")
            a = ' default=%s' % quoteattr(defaults[n]) if n in defaults else ""
            out.append('<bpmn:%s id=%s name=%s%s>' % (XML[t], quoteattr(n), quoteattr(nm, {"\n": "&#10;"}), a))
            for e in self.ins(n):
                out.append("<bpmn:incoming>%s</bpmn:incoming>" % e[0])
            for e in self.outs(n):
                out.append("<bpmn:outgoing>%s</bpmn:outgoing>" % e[0])
            if t == "event":
                out.append("<bpmn:timerEventDefinition/>" if len(n) % 2 else "<bpmn:messageEventDefinition/>")
            out.append("</bpmn:%s>" % XML[t])
        for e, s, t in self.edges:
            out.append('<bpmn:sequenceFlow id="%s" sourceRef="%s" targetRef="%s"/>' % (e, s, t))
        out.append("</bpmn:process></bpmn:definitions>")
        return "\n".join(out)
