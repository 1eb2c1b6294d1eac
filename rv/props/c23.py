"""C23: replay of conforming logs explains every event and discovered branching probabilities are the observed frequencies."""
import csv, os, shutil
import datetime as dt
from collections import Counter
from .. import model, scenario
from ..run import quiet, scratch
from ..sim import can_be_empty

N = {"quick": 4500, "thorough": 40000}
RULE = ("random block-structured models (sequence, choice, parallel, loop; silent branches where the walk is determined by the log) with logs "
        "played out from them, overlapping and tied work included; the log is replayed by the discovery and the counted flows, fired events, "
        "left-over tokens and branching probabilities are compared with the decisions of the play-out; non-trivial: some gateway was visited "
        "with two different outcomes; distinct by tree shape and counts")
MUST_SEE = ["traces", "events", "xor", "loop", "nested_choice", "parallel_choice", "silent", "unvisited", "never_taken", "repeated", "overlap",
            "interleaved", "shuffled_rows", "drawing", "parallel_loop", "visited_sum_1",
            "silent_parallel", "logged_event"]
ASSUME = ["no parallel block that may be silent altogether, none with a silent branch where flows of different blocks merge in the end event "
          "(known findings)",
          "a loop without redo activities contains no other gateway (otherwise the walk is not determined by the log)",
          "inclusive gateways are excluded: the statement covers exclusive splits"]


def ok(t):
    for n in model.walk(t):
        k = n[0]
        if k == "and" and can_be_empty(n):
            return False
        if k == "xor":
            if sum(c is None for c in n[2]) > 1 or any(c is not None and can_be_empty(c) for c in n[2]):
                return False
        if k == "loop":
            if can_be_empty(n[2]) or n[3] is not None and can_be_empty(n[3]):
                return False
            if n[3] is None and any(x[0] != "task" and x[0] != "seq" for x in model.walk(n[2])):
                return False
    return True


def play(r, t, back, bias, want, now, ev):
    """play out t from instant `now` (seconds); append [activity, start, end] to ev; return the end instant"""
    if t is None:
        return now
    k = t[0]
    if k == "event":
        e = now + r.choice([1, r.randint(1, 4000)])
        ev.append([t[1], now, e])
        return e
    if k == "task":
        s = now + r.choice([0, r.randint(0, 600)])
        e = s + r.choice([1, r.randint(1, 50), r.randint(1, 5000)])
        ev.append([t[1], s, e])
        return e
    if k == "seq":
        for c in t[1]:
            now = play(r, c, back, bias, want, now, ev)
        return now
    if k == "and":
        return max(play(r, c, back, bias, want, now, ev) for c in t[2])
    if k == "xor":
        i = r.choices(range(len(t[2])), weights=bias[t[1]])[0]
        want["%s_f%d" % (t[1], i)] += 1
        return play(r, t[2][i], back, bias, want, now, ev)
    if k == "loop":
        now = play(r, t[2], back, bias, want, now, ev)
        while r.random() < back:
            want[t[1] + "_back"] += 1
            now = play(r, t[3], back, bias, want, now, ev)
            now = play(r, t[2], back, bias, want, now, ev)
        want[t[1] + "_exit"] += 1
        return now
    raise AssertionError(k)


def gen(r, tier, i):
    prof = r.choice([{"seq": 3, "xor": 3, "leaf": .3}, {"seq": 2, "xor": 2, "and": 2}, {"seq": 2, "xor": 2, "and": 2, "loop": 1},
                     {"seq": 2, "xor": 1, "loop": 2}, {"xor": 2, "and": 2}, {"seq": 1, "and": 3, "loop": 2}])
    deep = r.random() < .4
    while True:
        g = model.Gen(r, dict(kinds=prof, p_skip=r.choice([0, .3, .6]), p_event=r.choice([0, 0, .2]), max_branch=r.choice([2, 3, 4])))
        t = g.tree(r.randint(3, 14 if deep else 8), r.randint(3, 5) if deep else 3)
        if t[0] in ("task", "seq") and not model.gateways(t):
            continue
        if not can_be_empty(t) and ok(t):
            break
    ids = model.tasks(t) + model.events(t)
    names = scenario.names_for(r, ids, .15)
    names = {k: v.strip() or k for k, v in names.items()}
    if len(set(names.values())) < len(names):
        names = {k: k for k in ids}
    variants = r.choice([(), (), ("xor_join", "and_split", "end_join", "mixed")])
    if variants and any(n[0] == "and" and None in n[2] for n in model.walk(t)):
        variants = ("xor_join", "and_split", "mixed")
    d = model.Drawing(t, names, r, variants)
    bias = {n[1]: [r.choice([0, 1, 1, 2, 5]) for _ in n[2]] for n in model.gateways(t, ("xor",))}
    for b in bias.values():
        if not any(b):
            b[r.randrange(len(b))] = 1
    back = r.choice([0, .2, .5])
    want = Counter()
    cases = []
    sub = r.random() < .3
    tz = r.choice(["+00:00", "+00:00", "+02:00", "-05:30"])
    mid = dt.datetime(2023, r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), tzinfo=dt.datetime.strptime(tz, "%z").tzinfo)
    for c in range(r.choice([1, 2, 5, 12])):
        while True:
            w = Counter()
            ev = []
            play(r, t, back, bias, w, 0, ev)
            if len(ev) <= 60:
                break
        want += w
        o = dt.timedelta(seconds=r.randint(0, 20000) + (r.randrange(10 ** 6) / 10 ** 6 if sub else 0))
        cases.append([[names[a], (mid + o + dt.timedelta(seconds=s)).isoformat(" "), (mid + o + dt.timedelta(seconds=e)).isoformat(" ")] for a, s, e in ev])
    rows = [[c, *e] for c, ev in enumerate(cases) for e in ev]
    order = r.choice(["case", "start", "end", "shuffle"])
    if order == "start":
        rows.sort(key=lambda x: x[2])
    elif order == "end":
        rows.sort(key=lambda x: x[3])
    elif order == "shuffle":
        r.shuffle(rows)
    return dict(tree=t, bpmn=d.xml(), rows=rows, order=order, want=dict(want), fakes=d.has_fakes())


def fixed():
    import random
    end = ["and", "g1", [["xor", "g2", [["and", "g3", [None, ["task", "t2"]]], None]], ["seq", [["task", "t5"], ["task", "t6"]]]]]
    sil = ["seq", [["xor", "g1", [["task", "t1"], None]], ["and", "g2", [None, ["xor", "g4", [["task", "t5"], None]]]],
                   ["and", "g5", [["task", "t7"], ["task", "t8"]]], ["task", "t9"]]]
    out = {}
    for key, t, seed, var, ev, want in (("end_merge", end, 3, ("end_join",), ["t5", "t6"], {"g2_f1": 2}),
                                        ("empty_parallel", sil, 0, (), ["t7", "t8", "t9"], {"g1_f1": 2, "g4_f1": 2})):
        d = model.Drawing(t, {}, random.Random(seed) if seed else None, var)
        rows = [[c, n, "2023-01-01 00:0%d:00+00:00" % m, "2023-01-01 00:0%d:30+00:00" % m] for c in range(2) for m, n in enumerate(ev)]
        out[key] = dict(tree=t, bpmn=d.xml(), rows=rows, order="case", want=want, fakes=d.has_fakes())
    return out


def judge(p, out):
    from bpdfr_discovery.log_parser import event_list_from_csv, sort_by_completion_times
    from prosimos.simulation_properties_parser import parse_simulation_model
    d = scratch()
    try:
        with open(os.path.join(d, "m.bpmn"), "w", encoding="utf-8") as f:
            f.write(p["bpmn"])
        with open(os.path.join(d, "log.csv"), "w", encoding="utf-8", newline="") as f:
            w = csv.writer(f)
            w.writerow(["case_id", "activity", "start_time", "end_time", "resource"])
            for r in p["rows"]:
                w.writerow([*r, "R"])
        freq = {}
        with quiet():
            g = parse_simulation_model(os.path.join(d, "m.bpmn"))
            traces = event_list_from_csv(os.path.join(d, "log.csv"))
            for tr in traces:
                seq = sort_by_completion_times(tr)
                good, fired, pend, _ = g.reply_trace(seq, freq, True, tr.event_list)
                if not good or not all(fired) or len(fired) != len(seq):
                    out.bad("unexplained", "replay of conforming trace %s of case %s leaves events unexplained: %s" % (seq, tr.p_case, fired))
                if pend:
                    out.bad("tokens", "replay of conforming trace %s of case %s leaves tokens on %s" % (seq, tr.p_case, pend))
                out.obs["traces"] += 1
                out.obs["events"] += len(seq)
                out.obs["repeated"] += len(set(seq)) < len(seq)
                iv = sorted((e.started_at, e.completed_at) for e in tr.event_list)
                out.obs["overlap"] += any(b[0] < a[1] for a, b in zip(iv, iv[1:]))
            probs = g.compute_branching_probability(dict(freq))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if sum(out.obs[k] for k in ("traces",)) != len({r[0] for r in p["rows"]}):
        out.bad("traces", "%d of %d traces read from the log" % (out.obs["traces"], len({r[0] for r in p["rows"]})))
    want = p["want"]
    split = False
    n_and = {id(x) for n in model.walk(p["tree"]) if n[0] == "and" for c in n[2] for x in model.walk(c)}
    for n in model.gateways(p["tree"], ("xor", "loop")):
        fl = model.flows(n)
        tot = sum(want.get(f, 0) for f in fl)
        got = probs.get(n[1])
        out.obs[n[0]] += 1
        if got is None:
            out.bad("missing", "no probabilities for gateway %s" % n[1])
            continue
        if sorted(got) != sorted(fl):
            out.bad("flows", "gateway %s: probabilities for %s, its flows are %s" % (n[1], sorted(got), sorted(fl)))
            continue
        for f in fl:
            w = want.get(f, 0)
            if freq.get(f, 0) != w:
                out.bad("count", "flow %s counted %s times, the log takes it %d of %d times" % (f, freq.get(f, 0), w, tot))
            e = w / tot if tot else 0
            if abs(got[f] - e) > 1e-9:
                out.bad("probability", "flow %s: probability %r, %d of %d visits take it" % (f, got[f], w, tot))
            out.obs["never_taken"] += tot > 0 and w == 0
        if tot:
            out.obs["visited_sum_1"] += 1
            if abs(sum(got.values()) - 1) > 1e-9:
                out.bad("sum", "probabilities of visited gateway %s sum to %r" % (n[1], sum(got.values())))
        else:
            out.obs["unvisited"] += 1
        split |= sum(want.get(f, 0) > 0 for f in fl) > 1
        if n[0] == "xor":
            out.obs["silent"] += None in n[2]
            out.obs["nested_choice"] += any(c is not None and c[0] == "xor" for c in n[2])
        out.obs["parallel_choice" if n[0] == "xor" else "parallel_loop"] += id(n) in n_and
    for g_ in probs:
        if g_ not in {n[1] for n in model.gateways(p["tree"], ("xor", "loop"))}:
            out.bad("extra", "probabilities for %s, which is no choice of the model" % g_)
    out.obs["silent_parallel"] += any(n[0] == "and" and None in n[2] for n in model.walk(p["tree"]))
    out.obs["logged_event"] += bool(model.events(p["tree"]))
    out.obs["interleaved"] += p["order"] in ("start", "end")
    out.obs["shuffled_rows"] += p["order"] == "shuffle"
    out.obs["drawing"] += bool(p["fakes"])
    if split:
        out.sig = repr((shape(p["tree"]), sorted(want.items())))
    out.sample = dict(tree=p["tree"], flows=want, rows=p["rows"][:6], counted={k: v for k, v in freq.items() if k in want})


def shape(t):
    if t is None:
        return "-"
    if t[0] in ("task", "event"):
        return "t"
    if t[0] == "loop":
        return "L(%s,%s)" % (shape(t[2]), shape(t[3]))
    return t[0][0] + "(" + ",".join(shape(c) for c in (t[1] if t[0] == "seq" else t[2])) + ")"
