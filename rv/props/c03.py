"""C03: no double booking; only assigned resources; events without resource."""
from .. import batch, scenario
from ..sim import execute, can_be_empty, short, NORES

N = {"quick": 7000, "thorough": 50000}
RULE = ("random models under heavy load on overlapping resource pools (amounts 1-3, nested/random/shared assignments); the log is "
        "partitioned by resource and every pair of neighbouring executions checked; non-trivial: some resource executed >= 3 "
        "activities of >= 2 different tasks; distinct by (number of resources, assignment matrix, tasks)")
MUST_SEE = ["rows", "back_to_back", "shared_resource_runs", "pool_member_rows", "parallel_batch_items", "after_parallel_batch",
            "fuzzy_runs"]


def gen(r, tier, i):
    p = dict(n=(5, 40), load=r.choice([.05, .1, .3, 1]), resources=(1, 6), p_event=.08, depth=3, budget=(2, 8))
    if i % 4 == 0:
        p.update(cals=("full",), dists=["fix"], dur=(0, 300))
    if i % 9 == 0:
        p.update(nasty=.5)
    if i % 8 == 5:
        from . import c21
        return c21.gen(r, tier, 1, r.choice([0, 1]))["sc"]
    if i % 8 == 7:
        return batch.gen(r, batch.FAMS, False, resources=(1, 3), alts=(1, 2), load=r.choice([.05, .3, 1]), ntasks=(1, 2))
    return scenario.gen(r, **p)


def judge(sc, out):
    v, res = execute(sc, out)
    check(v, res, out)
    out.sample = short(sc, res.log)


def check(v, res, out):
    by, tasks = {}, {}
    together = {b["task_id"] for b in v.sc["json"].get("batch_processing", []) if b["type"] == "Parallel"}
    out.obs["fuzzy_runs"] += v.sc["json"].get("model_type") == "FUZZY"
    for r in res.log.rows:
        if r["is_event"]:
            if r["res"] != NORES:
                out.bad("event-resource", "event row %d carries resource %r" % (r["idx"], r["res"]))
            continue
        if r["label"] is None:
            continue
        if r["res"] not in v.res:
            out.bad("unknown-resource", "row %d executed by unknown resource %r" % (r["idx"], r["res"]))
            continue
        if r["res"] not in v.alloc[r["label"]]:
            out.bad("not-assigned", "row %d: task %s executed by %r which is not assigned to it" % (r["idx"], r["label"], r["res"]))
        if len(v.members[v.res[r["res"]]["pid"]]) > 1:
            out.obs["pool_member_rows"] += 1
        by.setdefault(r["res"], []).append(r)
        tasks.setdefault(r["res"], set()).add(r["label"])
    for name, rows in by.items():
        rows.sort(key=lambda r: (r["st"], r["co"]))
        last = None
        for r in rows:
            b = r["attrs"].get("batch_id") if r["label"] in together else None
            if last is not None:
                if b not in (None, "", "None") and last["attrs"].get("batch_id") == b:
                    out.obs["parallel_batch_items"] += 1
                elif r["st"] < last["co"] - 2 and r["co"] > r["st"]:
                    out.bad("overlap", "resource %r works on rows %d and %d at the same time (%s..%s and %s..%s)" % (
                        name, last["idx"], r["idx"], last["raw"][3], last["raw"][4], r["raw"][3], r["raw"][4]))
                elif r["st"] - last["co"] <= 2:
                    out.obs["back_to_back"] += 1
                    out.obs["after_parallel_batch"] += last["label"] in together and last["attrs"].get("batch_id") not in (None, "", "None")
            if last is None or r["co"] > last["co"]:
                last = r
        if len(rows) >= 3 and len(tasks[name]) >= 2:
            out.obs["shared_resource_runs"] += 1
            out.sig = repr((len(v.res), sorted((t, sorted(a)) for t, a in v.alloc.items())))
