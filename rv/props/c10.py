"""C10: batching partitions the waiting items: each is executed exactly once, in batches of permitted sizes."""
import collections
from .. import batch, model
from ..batch import US
from ..sim import execute, explain, can_be_empty, shape, short

N = {"quick": 5500, "thorough": 50000}
RULE = ("random models with 1-3 batched activities (sequential/parallel, all rule attributes and combinations, alternatives, no rules but "
        "a size distribution), priorities and arrival patterns; every case is replayed on the model, and batch ids, sizes and lone "
        "executions are compared with the declared rules; non-trivial: some batch of >= 2 items; distinct by rules and model shape")
MUST_SEE = ["batches", "batched_rows", "lone_rows", "end_batches", "permitted_sizes", "with_priorities", "several_batched_tasks",
            "explained_cases", "several_batches_of_a_task", "lone_before_open"] + ["fam_" + f for f in batch.FAMS]
ASSUME = ["models are sound and block-structured", "rows are written in dispatch order",
          "sizes are judged for activities whose alternatives all bound the size (one size condition per alternative)"]


def gen(r, tier, i):
    p = dict(prio=.4)
    if i % 3 == 1:
        p.update(ntasks=(1, 3), alts=(1, 3))
    if i % 5 == 2:
        p.update(n=(15, 60), budget=(1, 3))
    while True:
        sc = batch.gen(r, batch.FAMS, **p)
        if not can_be_empty(sc["tree"]):
            return sc


def permitted(conds, k):
    """does k items satisfy the size conditions of one alternative"""
    for c in conds:
        n = int(c["value"])
        if not {"=": k == n, "<": k < n, "<=": k <= n, ">": k > n, ">=": k >= n}[c["comparison"]]:
            return False
    return True


def judge(sc, out):
    v, res = execute(sc, out)
    j = sc["json"]
    rows = res.log.rows
    out.obs["fam_" + sc["fam"]] += 1
    out.obs["with_priorities"] += "prioritisation_rules" in j
    conf = {b["task_id"]: b for b in j["batch_processing"]}
    out.obs["several_batched_tasks"] += len(conf) > 1
    by = res.log.by_case()
    dep = {}
    if set(by) - set(range(sc["n"])):
        out.bad("extra-case", "cases %s were not requested" % sorted(set(by) - set(range(sc["n"])))[:5])
        return
    for c in range(sc["n"]):
        if c not in by:
            out.bad("lost-case", "case %d of %d never appears in the log" % (c, sc["n"]))
            continue
        for timed in (False, True):
            u = explain(sc, by[c], timed)
            if u is None:
                out.bad("lost-or-repeated-item" if not timed else "enabling", "case %d is not a complete run of the model%s: %s" % (
                    c, " with its enabling times" if timed else "", [(r["label"], str(r["en"]), r["attrs"]["batch_id"][:8]) for r in by[c]]))
                break
        else:
            out.obs["explained_cases"] += 1
            dep.update({i: d[0] for i, d in u.items()})
    if out.viol:
        return
    ids = {}
    for r in rows:
        b = r["attrs"]["batch_id"]
        if b in ("", "None"):
            continue
        if r["label"] not in conf:
            out.bad("batch-of-plain-activity", "row %d: activity %s is not batched but has the batch id %s" % (r["idx"], r["label"], b))
            continue
        if ids.setdefault(b, r["label"]) != r["label"]:
            out.bad("shared-id", "batch id %s is used by the activities %s and %s" % (b, ids[b], r["label"]))
    # moments (before row m) at which everything but batched activities had been executed
    quiet, low = set(), len(rows) + 1
    for r in reversed(rows):
        if r["label"] not in conf or r["attrs"]["batch_id"] in ("", "None"):
            low = min(low, dep[r["idx"]])
        if low >= r["idx"]:
            quiet.add(r["idx"])

    def at_end(rs):
        """was nothing else left to execute at some moment between the enabling of these items and their execution"""
        return any(m in quiet for m in range(max(dep[r["idx"]] for r in rs) + 1, min(r["idx"] for r in rs) + 1))
    for t, b in conf.items():
        bs, alone = batch.batches(rows, t)
        rules = b["firing_rules"]
        prob = {int(x["key"]): x["value"] for x in b["size_distrib"]}
        out.obs["several_batches_of_a_task"] += len(bs) > 1
        out.obs["lone_rows"] += len(alone)
        if alone and prob.get(1, 0) <= 0:
            out.bad("alone", "row %d: activity %s was executed outside any batch, but the probability of size 1 is 0" % (alone[0]["idx"], t))
        for r in alone:
            # decided after one item of a batch began to wait and before another joined it, in log order and in time
            for bid, rs in bs:
                old = [m for m in rs if 0 <= dep[m["idx"]] < dep[r["idx"]] and m["en"] < r["en"] - US]
                new = [m for m in rs if dep[m["idx"]] > dep[r["idx"]] and m["en"] > r["en"] + US]
                if old and new:
                    out.bad("alone-while-open", "row %d: case %d of %s was executed alone, enabled at %s while the batch of cases %s (enabled %s) was open" % (
                        r["idx"], r["case"], t, r["raw"][2], [m["case"] for m in rs], [m["raw"][2] for m in rs]))
            out.obs["lone_before_open"] += any(dep[m["idx"]] > dep[r["idx"]] for bid, rs in bs for m in rs)
        wt = any(c["attribute"] in ("large_wt", "ready_wt") for a in rules for c in a)
        large = any(c["attribute"] == "large_wt" for a in rules for c in a)
        sized = [[c for c in a if c["attribute"] == "size"] for a in rules]
        for bid, rs in bs:
            k = len(rs)
            out.obs["batches"] += 1
            out.obs["batched_rows"] += k
            if k > 1:
                out.sig = repr((rules if rules else sorted(prob), b["type"])) + shape(sc)
            cs = collections.Counter(r["case"] for r in rs)
            if max(cs.values()) > 1:
                out.bad("case-twice", "batch %s of %s holds case %s twice" % (bid, t, cs.most_common(1)[0][0]))
            end = at_end(rs)
            out.obs["end_batches"] += end
            where = "batch %s of %s (rules %s, sizes %s) has %d items (cases %s)" % (bid, t, rules, prob, k, sorted(cs))
            if k == 1:
                if not wt and not end and (rules or prob.get(1, 0) <= 0):
                    out.bad("size", where + ", although only waiting-time rules release a single item")
                continue
            if not rules:
                if prob.get(k, 0) <= 0 and not end:
                    out.bad("size", where + ", a size of probability 0")
                else:
                    out.obs["permitted_sizes"] += 1
            elif all(sized):
                if any(permitted(a, k) for a in sized):
                    out.obs["permitted_sizes"] += 1
                elif not end and not large:
                    out.bad("size", where + ", which no firing rule permits")
    out.sample = dict(short(sc, res.log), batch_processing=j["batch_processing"])
