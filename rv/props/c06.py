"""C06: dispatch by (priority, enabling time); priorities from the rules."""
from .. import scenario, model, batch
from ..sim import execute, explain, can_be_empty, shape, short, arrival

N = {"quick": 6000, "thorough": 40000}
RULE = ("random models with prioritisation rules over case attributes (1-3 levels, OR of ANDs, equality and ranges) under contention; the "
        "queue of waiting work items is reconstructed from the log and every dispatch is compared with its least (priority, enable "
        "time), batches of a fixed size being one item with the best priority of "
        "their members; non-trivial: some dispatch chose among >= 2 waiting items of different priority; distinct by rules and model shape")
MUST_SEE = ["dispatches", "choices_by_priority", "choices_by_time", "events_dispatched", "priority_levels_2plus",
            "batches_of_several_priorities", "choices_with_batches"]
ASSUME = ["rows are written in dispatch order", "case attributes are logged exactly (they are printed with full precision)"]


def gen(r, tier, i):
    p = dict(n=(4, 30), load=r.choice([.02, .1, .5, 1]), resources=(1, 3), depth=3, budget=(2, 7), p_event=.15,
             prio=.9, arr_dists=["fix", "uniform", "expon"])
    if i % 6 == 0:
        p.update(prio=0)
    if i % 5 != 3:
        return scenario.gen(r, **p)
    # batches of a fixed size: complete as soon as their last member is enabled
    p.update(n=(6, 40), prio=1, budget=(2, 5), resources=(1, 2), p_event=.1)
    while True:
        sc = scenario.gen(r, **p)
        ts = model.tasks(sc["tree"])
        if len(ts) > 1 and not can_be_empty(sc["tree"]):
            break
    sc["json"]["batch_processing"] = [
        {"task_id": t, "type": r.choice(["Sequential", "Parallel"]), "size_distrib": [{"key": "1", "value": 0}, {"key": "2", "value": 1}],
         "duration_distrib": [{"key": "3", "value": .5}], "firing_rules": [[batch.sub("size", "=", r.randint(2, 4))]]}
        for t in r.sample(ts, r.choice([1, 1, 2]) if len(ts) > 2 else 1)]
    return sc


def judge(sc, out):
    v, res = execute(sc, out)
    rules = sc["json"].get("prioritisation_rules")
    rows = res.log.rows
    enq, prio = {}, {}
    for c, rs in res.log.by_case().items():
        u = explain(sc, rs, True)
        if u is None:
            out.bad("unexplained", "case %d is not a timed run of the model (see C01/C02)" % c)
            return
        attrs = rs[0]["attrs"]
        prio[c] = scenario.case_priority(rules, attrs) if rules else float("inf")
        for i, (dep, t) in u.items():
            enq[i] = dep
    if len(set(prio.values())) > 1:
        out.obs["priority_levels_2plus"] += 1
    size = {b["task_id"]: int(b["firing_rules"][0][0]["value"]) for b in sc["json"].get("batch_processing", [])}
    # items that wait and are dispatched together: single rows, and batches (at their last member); an incomplete batch waits for the end
    groups = {}
    for r in rows:
        groups.setdefault((r["label"], r["attrs"]["batch_id"]) if r["label"] in size and r["attrs"]["batch_id"] not in ("", "None") else r["idx"],
                          []).append(r)
    items, at, by_enq = {}, {}, {}
    for k, g in groups.items():
        f = g[0]
        if f["label"] in size:
            items[k] = (min(prio[r["case"]] for r in g), None)
            for r in g:
                at[r["idx"]] = k
            if len(g) != size[f["label"]]:
                continue
            out.obs["batches"] += 1
            out.obs["batches_of_several_priorities"] += len({prio[r["case"]] for r in g}) > 1
        else:
            items[k] = (0 if f["is_event"] else prio[f["case"]], f["en"])
        by_enq.setdefault(max(enq[r["idx"]] for r in g), []).append(k)
        for r in g:
            at[r["idx"]] = k
    # dispatch steps: one row, or a maximal run of rows of one batched activity (several batches may be released by one event)
    steps = []
    for r in rows:
        if steps and r["label"] in size and steps[-1][-1]["label"] == r["label"]:
            steps[-1].append(r)
        else:
            steps.append([r])
    waiting = set(by_enq.get(-1, []))
    for step in steps:
        mine = {at[r["idx"]] for r in step}
        out.obs["dispatches"] += 1
        out.obs["events_dispatched"] += step[0]["is_event"]
        others = [k for k in waiting if k not in mine]
        p, t = min((items[k] for k in mine), key=lambda x: x[0])
        if others:
            bad = [k for k in others if items[k][0] < p or
                   (items[k][0] == p and t is not None and items[k][1] is not None and items[k][1] < t - 2000)]
            if bad:
                k = min(bad, key=lambda k: items[k][0])
                w = groups[k][0]
                out.bad("dispatch-order", "row %d (case %d, %s, priority %s, enabled %s) dispatched before waiting row %d (case %d, %s, "
                        "priority %s, enabled %s)%s" % (step[0]["idx"], step[0]["case"], step[0]["label"], p, step[0]["raw"][2], w["idx"], w["case"],
                                                        w["label"], items[k][0], w["raw"][2],
                                                        ", a batch of the cases %s" % sorted(r["case"] for r in groups[k]) if len(groups[k]) > 1 else ""))
                break
            if any(items[k][0] != p for k in others):
                out.obs["choices_by_priority"] += 1
                out.obs["choices_with_batches"] += bool(size) and (step[0]["label"] in size or any(groups[k][0]["label"] in size for k in others))
                out.sig = repr(rules) + shape(sc)
            if any(items[k][0] == p for k in others):
                out.obs["choices_by_time"] += 1
        waiting -= mine
        for r in step:
            waiting.update(k for k in by_enq.get(r["idx"], []) if k not in mine)
    out.sample = dict(short(sc, res.log), rules=rules)
