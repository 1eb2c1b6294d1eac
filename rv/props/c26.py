"""C26: multitasking never exceeds the declared capacity and loses no work."""
import datetime as dt
from scipy.stats import binom
from .. import law, scenario, model
from ..cal import DAYS
from ..sim import execute, can_be_empty, short, shape, NORES
from . import c01, c02, c04

N = {"quick": 2800, "thorough": 16800}
RULE = ("random models and loads with a global or local (per weekday and hour) multitasking section declaring 0-4 parallel activities for "
        "some of the resources; each case is replayed on the model, each row checked against calendars and assignments and the number of "
        "activities in progress per resource swept over time; non-trivial: some resource worked on two activities at once; distinct by "
        "kind of section, declared capacities and the concurrency reached")
MUST_SEE = ["rows", "explained_cases", "global", "local", "parallel_2", "parallel_3", "full_capacity_used", "undeclared_resource_rows",
            "zero_probability_declared", "certain_waves", "hour_waves", "pair_frequency_tests", "hour_waves_single", "saturated_teams", "accounts"]
ASSUME = ["no batching (multitasking inside batches is not described anywhere); the members of a resource with amount > 1 are judged one by one"]


def probs(r, k):
    """probabilities of at least 1..k activities in parallel, non-increasing"""
    style = r.choice(["sure", "stairs", "stairs", "cut"])
    if style == "sure":
        return [1.0] * k
    ps = [1.0] + sorted((round(r.random(), 3) for _ in range(k - 1)), reverse=True)
    if style == "cut" and k > 1:
        c = r.randint(1, k - 1)
        ps = ps[:c] + [0.0] * (k - c)
    return ps[:k]


def info(r, kmax=4):
    k = r.randint(0, kmax)
    return [{"parallel_tasks": n + 1, "probability": p} for n, p in enumerate(probs(r, k))] if k else []


def gen(r, tier, i):
    p = dict(n=(4, 25), load=r.choice([.02, .1, .3, 1]), resources=(1, 5), p_event=.08, depth=3, budget=(2, 8))
    if i % 3 == 0:
        p.update(cals=("full",), arr_cal=("full",), dists=["fix", "uniform"], dur=(10, 3000))
    if i % 12 == 5:
        return certain(r)
    if i % 24 == 8:
        return pairs(r)
    if i % 12 == 11:
        return certain_hours(r)
    while True:
        sc = scenario.gen(r, **p)
        if not can_be_empty(sc["tree"]):
            break
    j = sc["json"]
    rids = [x["id"] for pool in j["resource_profiles"] for x in pool["resource_list"]]
    local = r.random() < .5
    vals = []
    for rid in rids:
        if r.random() < .15:
            continue
        e = {"resource_id": rid, "r_workload": round(r.random(), 3)}
        if not local:
            e["multitask_info"] = info(r)
        else:
            e["weekly_probability"] = week(r)
        vals.append(e)
    r.shuffle(vals)
    j["multitask"] = {"type": "local" if local else "global", "values": vals}
    return sc


def certain(r):
    """simultaneous cases of one activity and 24/7 resources, each of which surely performs its number of activities in parallel"""
    m = r.choice([1, 1, 2, 3, 4])
    ks = [r.randint(1, 5 if m == 1 else 3) for _ in range(m)]
    sc = scenario.gen(r, tree=["task", "t1"], resources=(1, 1), cals=("full",), arr_cal=("full",), prio=0, n=(2, 12))
    j = sc["json"]
    x = dict(j["resource_profiles"][0]["resource_list"][0], amount=1)
    pool = [x] + [dict(x, id="%s__m%d" % (x["id"], i), name="%s m%d" % (x["name"], i)) for i in range(1, m)]
    j["resource_profiles"] = [dict(j["resource_profiles"][0], resource_list=pool)]
    if m > 1:
        sc["n"] = 50 * sum(ks)
    d = r.randint(5, 4000)
    j["arrival_time_distribution"] = scenario.fix(0)
    j["task_resource_distribution"] = [{"task_id": "t1", "resources": [dict({"resource_id": x["id"]}, **scenario.fix(d)) for x in pool]}]
    local = r.random() < .5
    vals = []
    for x, k in zip(pool, ks):
        ent = sure(r, k)
        val = {"resource_id": x["id"], "r_workload": 1.0}
        if local:
            val["weekly_probability"] = [[{"from": w, "to": w, "beginTime": "%02d:00:00" % h, "endTime": "%02d:00:00" % ((h + 1) % 24),
                                           "multitask_info": ent} for h in range(24)] for w in DAYS]
        else:
            val["multitask_info"] = ent
        vals.append(val)
    j["multitask"] = {"type": "local" if local else "global", "values": vals}
    sc["certain"] = {"k": {x["id"]: k for x, k in zip(pool, ks)}, "d": d}
    return sc


def sure(r, k):
    """surely k activities in parallel; steps in between may be left undeclared"""
    return [{"parallel_tasks": c + 1, "probability": 1.0} for c in range(k) if c + 1 == k or r.random() < .6]


def certain_hours(r):
    """simultaneous cases and one 24/7 resource whose certain number of parallel activities depends on weekday and hour"""
    sc = scenario.gen(r, tree=["task", "t1"], resources=(1, 1), cals=("full",), arr_cal=("full",), prio=0, n=(20, 120))
    j = sc["json"]
    x = dict(j["resource_profiles"][0]["resource_list"][0], amount=1)
    j["resource_profiles"] = [dict(j["resource_profiles"][0], resource_list=[x])]
    d = r.choice([r.randint(60, 3000), r.randint(60, 3000), r.randint(3000, 20000)])
    j["arrival_time_distribution"] = scenario.fix(0)
    j["task_resource_distribution"] = [{"task_id": "t1", "resources": [dict({"resource_id": x["id"]}, **scenario.fix(d))]}]
    table = [[1] * 24 for _ in range(7)]
    groups = []
    w = 0
    while w < 7:
        w2 = min(6, w + r.choice([0, 0, 0, 1, 4]))
        h, day = 0, []
        while h < 24:
            h2 = min(24, h + r.choice([1, 1, 2, 3, 8]))
            k = r.randint(0, 4)
            if k:
                day.append({"from": DAYS[w], "to": DAYS[w2], "beginTime": "%02d:00:00" % h, "endTime": "%02d:00:00" % (h2 % 24), "multitask_info": sure(r, k)})
                for a in range(w, w2 + 1):
                    table[a][h:h2] = [k] * (h2 - h)
            h = h2
        groups.append(day)
        w = w2 + 1
    j["multitask"] = {"type": "local", "values": [{"resource_id": x["id"], "r_workload": 1.0, "weekly_probability": groups}]}
    sc["hours"] = {"table": table, "d": d}
    return sc


def pairs(r):
    """simultaneous cases and one 24/7 resource which performs two activities in parallel with a given probability"""
    sc = scenario.gen(r, tree=["task", "t1"], resources=(1, 1), cals=("full",), arr_cal=("full",), prio=0, n=(300, 500))
    j = sc["json"]
    x = dict(j["resource_profiles"][0]["resource_list"][0], amount=1)
    j["resource_profiles"] = [dict(j["resource_profiles"][0], resource_list=[x])]
    d = r.randint(60, 3000)
    j["arrival_time_distribution"] = scenario.fix(0)
    j["task_resource_distribution"] = [{"task_id": "t1", "resources": [dict({"resource_id": x["id"]}, **scenario.fix(d))]}]
    p = round(r.uniform(.15, .85), 3)
    ent = [{"parallel_tasks": 1, "probability": r.choice([1.0, round(1 - p, 3)])}, {"parallel_tasks": 2, "probability": p}]
    val = {"resource_id": x["id"], "r_workload": 1.0}
    local = r.random() < .5
    if local:
        val["weekly_probability"] = [[{"from": "MONDAY", "to": "SUNDAY", "beginTime": "%02d:00:00" % h, "endTime": "%02d:00:00" % ((h + 1) % 24),
                                       "multitask_info": ent} for h in range(24)]]
    else:
        val["multitask_info"] = ent
    j["multitask"] = {"type": "local" if local else "global", "values": [val]}
    sc["pairs"] = p
    return sc


def count_pairs(sc, v, res, out):
    n = [0, 0]
    starts = sorted(x["st"] for x in res.log.rows)
    while starts:
        k = sum(abs(x - starts[0]) < 20_000 for x in starts)
        if k > 2:
            return      # over-capacity is reported anyway
        if k < len(starts):     # the last wave may lack work
            n[k - 1] += 1
        starts = starts[k:]
    p, m = sc["pairs"], sum(n)
    out.obs["pair_frequency_tests"] += 1
    if binom.sf(n[1] - 1, m, p) < law.ALPHA or binom.cdf(n[1], m, p) < law.ALPHA:
        out.bad("pair-frequency", "two activities are performed in parallel with probability %s, but %d waves out of %d are pairs" % (p, n[1], m))


def at(table, us):
    h = us // (3600 * 10**6)
    return table[h // 24 % 7][h % 24]


def clock(us):
    return (dt.datetime(2001, 1, 1) + dt.timedelta(microseconds=us)).strftime("%a %Y-%m-%d %H:%M:%S.%f")


def hour_waves(sc, v, res, out):
    """the waves of the only resource are as large as declared for the hours they touch"""
    table, d = sc["hours"]["table"], sc["hours"]["d"]
    starts = sorted(x["st"] for x in res.log.rows)
    t, i = starts[0], 0
    while i < len(starts):
        n = sum(abs(x - t) <= 20_000 for x in starts[i:])
        caps = set()
        for a in range(0, d * 10**6, 3600 * 10**6):
            caps.add(at(table, t + a))
        caps |= {at(table, t + x) for x in (-20_000, 20_000, d * 10**6 - 20_000, d * 10**6 + 20_000)}
        last = i + n == len(starts)
        if not (n in caps or last and n <= max(caps)):
            out.bad("hour-capacity", "%d simultaneous work items of %d s: the only resource starts %d of them at %s, where it surely performs %s in parallel" % (
                len(starts), d, n, clock(t), sorted(caps)))
            return
        out.obs["hour_waves"] += 1
        out.obs["hour_waves_single"] += len(caps) == 1 and n > 1
        i += n
        t += d * 10**6
        if i < len(starts) and abs(starts[i] - t) > 20_000:
            out.bad("capacity-unused", "%d simultaneous work items of %d s: a wave starts at %s, expected %s" % (len(starts), d, clock(starts[i]), clock(t)))
            return


def waves(sc, v, res, out):
    """with work waiting for all of them all the time, every resource works in waves of its capacity without a gap"""
    ks, d = sc["certain"]["k"], sc["certain"]["d"]
    starts = {}
    for x in res.log.rows:
        if x["res"] in v.res:
            starts.setdefault(v.res[x["res"]]["pid"], []).append(x["st"])
    t0 = min((min(x) for x in starts.values()), default=0)
    done = {}
    for rid, k in sorted(ks.items()):
        rows = sorted(starts.get(rid, []))
        done[rid] = -(-len(rows) // k)
        for i, st in enumerate(rows):
            want = t0 + (i // k) * d * 10**6
            if abs(st - want) > 10_000:
                out.bad("capacity-unused", "%d simultaneous work items of %d s, resource %s surely performs %d in parallel: its item %d starts "
                        "%.3f s after the first, expected %.3f" % (len(res.log.rows), d, rid, k, i, (st - t0) / 1e6, (want - t0) / 1e6))
                return
        out.obs["certain_waves"] += len(rows) > k > 1
    if len(ks) > 1:
        # by then at most a few waves may have been taken ahead of an idle resource (each with probability 1/2 or less)
        out.obs["saturated_teams"] += 1
        if max(done.values()) - min(done.values()) > 2:
            out.bad("idle-member", "%d simultaneous work items, all resources may perform them, waves worked per resource: %s" % (
                len(res.log.rows), done))


def week(r):
    out = []
    dense = r.random() < .6
    base = info(r)
    for d in DAYS:
        day = []
        for h in range(24):
            x = base if dense and r.random() < .8 else (info(r) if r.random() < .4 else [])
            if x:
                day.append({"from": d, "to": d, "beginTime": "%02d:00:00" % h, "endTime": "%02d:00:00" % ((h + 1) % 24),
                            "multitask_info": x})
        out.append(day)
    return out


def capacity(e):
    """largest number of parallel activities declared with positive probability"""
    best = {}
    groups = [e["multitask_info"]] if "multitask_info" in e else [g["multitask_info"] for day in e["weekly_probability"] for g in day]
    for g in groups:
        for x in g:
            best[x["parallel_tasks"]] = max(best.get(x["parallel_tasks"], 0), x["probability"])
    n = max([k for k, p in best.items() if p > 0], default=1)
    return n, max(best, default=0) > n


def judge(sc, out):
    v, res = execute(sc, out)
    j = sc["json"]
    out.obs[j["multitask"]["type"]] += 1
    c02.check(sc, v, res, out)
    c04.check(sc, v, res, out)
    for x in (res.stats.get("Resource Utilization") or [[]])[1:]:
        d = dict(zip(res.stats["Resource Utilization"][0], x))
        k = sum(not row["is_event"] and row["res"] == d["Resource name"] for row in res.log.rows)
        out.obs["accounts"] += 1
        if int(d["Tasks Allocated"]) != k:
            out.bad("allocated", "resource %s: %s tasks allocated, %d executed in the log" % (d["Resource name"], d["Tasks Allocated"], k))
    if sc.get("certain"):
        waves(sc, v, res, out)
    if sc.get("pairs"):
        count_pairs(sc, v, res, out)
    if sc.get("hours"):
        hour_waves(sc, v, res, out)
    declared = {e["resource_id"]: capacity(e) for e in j["multitask"]["values"]}
    ends = {}
    for row in res.log.rows:
        if row["is_event"]:
            if row["res"] != NORES:
                out.bad("event-resource", "event row %d carries resource %r" % (row["idx"], row["res"]))
            continue
        if row["label"] is None:
            continue
        if row["res"] not in v.res or row["res"] not in v.alloc[row["label"]]:
            out.bad("not-assigned", "row %d: task %s executed by %r which is not assigned to it" % (row["idx"], row["label"], row["res"]))
            continue
        rid = v.res[row["res"]]["pid"]
        if rid not in declared:
            out.obs["undeclared_resource_rows"] += 1
        if row["co"] - row["st"] > 4:
            ends.setdefault(row["res"], []).append((row["st"] + 2, 1, row["idx"]))
            ends[row["res"]].append((row["co"] - 2, -1, row["idx"]))
    reached = []
    for nm, ev in sorted(ends.items()):
        rid = v.res[nm]["pid"]
        cap, cut = declared.get(rid, (1, False))
        out.obs["zero_probability_declared"] += cut
        n = mx = 0
        act = set()
        for t, s, idx in sorted(ev):
            n += s
            act.add(idx) if s > 0 else act.discard(idx)
            if n > mx:
                mx = n
                if n > cap:
                    out.bad("over-capacity", "resource %s works on %d activities at once (rows %s), declared %s" % (
                        rid, n, sorted(act)[:6], declared.get(rid, "nothing")))
        out.obs["parallel_%d" % min(mx, 9)] += 1
        if mx == cap > 1:
            out.obs["full_capacity_used"] += 1
        reached.append((cap, mx))
    if any(m > 1 for _, m in reached):
        out.sig = repr((j["multitask"]["type"], sorted(reached)))
    out.sample = short(sc, res.log)
