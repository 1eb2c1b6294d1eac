"""C01: every case is a complete, conforming run of the model (structure and dispatch order only)."""
from .. import scenario, model
from ..sim import execute, explain, can_be_empty, shape, short

N = {"quick": 7000, "thorough": 60000}
RULE = ("random block-structured models (seq/xor/and/or/loop/event-based, skips, 4 drawing variants, shuffled XML) with random "
        "resources, calendars, loads and priorities are simulated and every case's rows are replayed on the process tree; "
        "non-trivial: model with at least one gateway; distinct by node kinds, nesting pairs and drawing variants")
MUST_SEE = ["rows", "explained_cases", "fake_xor_join", "fake_and_split", "fake_end_join", "fake_mixed", "terminate_end_first", "terminate_end_sound",
            "terminated_branches"]
ASSUME = ["models are sound and block-structured"]


def gen(r, tier, i):
    p = dict(p_event=.12, tail=.6)
    if i % 4 == 1:
        p.update(budget=(8, 18), depth=5, n=(1, 6))
    if i % 4 == 2:
        p.update(kinds={"xor": 2, "and": 2, "or": 2, "loop": 2, "evg": 1, "seq": 1}, p_skip=.4, budget=(2, 8))
    if i % 5 == 3:
        p.update(p_loop_back=.7, kinds={"loop": 3, "xor": 1, "and": 1, "seq": 2}, n=(1, 5), budget=(2, 7))
    if i % 7 == 5:
        p.update(n=(20, 60), dur=(0, 500))
    if i % 16 == 6:
        return terminating(r)
    while True:
        sc = scenario.gen(r, **p)
        if not can_be_empty(sc["tree"]):
            break
    if r.random() < .15:
        # the only end event of a sound model is reached once: terminating makes no difference
        sc["bpmn"] = terminate(sc["bpmn"])
        sc["terminate"] = "sound"
    return sc


def terminate(xml):
    return xml.replace("</bpmn:endEvent>", "<bpmn:terminateEventDefinition id=\"term\"/></bpmn:endEvent>")


def terminating(r):
    """parallel branches of which the first to complete terminates the case"""
    k, n = r.randint(2, 3), 0
    ch = []
    for _ in range(k):
        m = r.randint(1, 3)
        ch.append(["seq", [["task", "t%d" % (n + x)] for x in range(m)]] if m > 1 else ["task", "t%d" % n])
        n += m
    sc = scenario.gen(r, tree=["and", "g1", ch], p_drawing=0)
    x = sc["bpmn"].replace('<bpmn:parallelGateway id="g1_j" name="">', '<bpmn:exclusiveGateway id="g1_j" name="">')
    a = x.index('id="g1_j"')
    b = x.index("</bpmn:parallelGateway>", a)
    sc["bpmn"] = terminate(x[:b] + "</bpmn:exclusiveGateway>" + x[b + len("</bpmn:parallelGateway>"):])
    sc["terminate"] = "first"
    return sc


def judge(sc, out):
    v, res = execute(sc, out)
    if sc.get("terminate"):
        out.obs["terminate_end_" + sc["terminate"]] += 1
    if sc.get("terminate") == "first":
        first_terminates(sc, res, out)
        return
    check_cases(sc, v, res, out)
    if len(model.gateways(sc["tree"], ("xor", "or", "and", "loop", "evg"))):
        out.sig = shape(sc)
    for f in sc["fakes"]:
        out.obs["fake_" + f] += 1
    out.sample = short(sc, res.log)


def first_terminates(sc, res, out):
    by = res.log.by_case()
    br = [[c[1]] if c[0] == "task" else [x[1] for x in c[1]] for c in sc["tree"][2]]
    for c in range(sc["n"]):
        rows = sorted(by.get(c, []), key=lambda r: r["idx"])
        full, late = 0, None
        for b in br:
            got = [r["label"] for r in rows if r["label"] in b]
            if got != b[:len(got)]:
                out.bad("non-conforming", "case %d: %s executed of the branch %s" % (c, got, b))
            full += got == b
        if len(rows) != sum(r["label"] in b for r in rows for b in br):
            out.bad("unknown-activity", "case %d: %s" % (c, [r["label"] for r in rows]))
        if not full:
            out.bad("incomplete", "case %d: no branch reached the end event: %s" % (c, [r["label"] for r in rows]))
            continue
        # dispatch of the activity that completes the first branch
        t = min(max(r["idx"] for r in rows if r["label"] in b) for b in br if [r["label"] for r in rows if r["label"] in b] == b)
        for b in br:
            g = [r["idx"] for r in rows if r["label"] in b]
            for x, y in zip(g, g[1:]):
                if x > t and y > t:
                    out.bad("after-termination", "case %d: %s enabled after the case was terminated: %s" % (c, b, [r["label"] for r in rows]))
        out.obs["terminated_branches"] += len(br) - full
        out.obs["explained_cases"] += 1


def check_cases(sc, v, res, out):
    for r in res.log.rows:
        if r["label"] is None:
            out.bad("unknown-activity", "row %d names activity %r that is not in the model" % (r["idx"], r["act"]))
    if out.viol:
        return
    by = res.log.by_case()
    want = set(range(sc["n"]))
    if set(by) - want:
        out.bad("extra-case", "cases %s in the log were not requested" % sorted(set(by) - want)[:5])
    for c in sorted(want):
        if c not in by:
            out.bad("missing-case", "case %d of %d has no rows although every run of the model executes something" % (c, sc["n"]))
            continue
        u = explain(sc, by[c], False)
        if u is None:
            out.bad("non-conforming", "case %d is not a complete run of the model: %s" % (c, [r["label"] for r in by[c]]))
        else:
            out.obs["explained_cases"] += 1
