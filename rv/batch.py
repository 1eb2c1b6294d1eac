"""Scenarios with batched activities and the facts about batches that can be read off their logs."""
import collections, random
from . import scenario, model
from .cal import DAYS, DAY

US = 1_000_000
OPS = ["=", "<", "<=", ">", ">="]
H = 3600


def sub(a, c, v):
    return {"attribute": a, "comparison": c, "value": v}


def and_rule(r, fam, scale):
    """one AND rule of a family; scale: typical gap between items (s)"""
    s = lambda: sub("size", r.choice([">=", ">=", "=", ">"]), r.randint(2, 4))
    if fam == "size":
        op = r.choice(OPS)
        k = r.randint(2, 5)
        return [sub("size", op, r.choice([max(3, k) if op == "<" else k, str(max(3, k) if op == "<" else k)]))]
    if fam in ("large_wt", "ready_wt"):
        x = round(scale * r.choice([.3, 1, 2, 5]), r.choice([0, 0, 2])) + 2
        y = round(x + scale * r.choice([.2, 1, 3]), 0) + 2
        z = r.random()
        if z < .3:
            return [sub(fam, "<" if r.random() < .5 else "<=", y)]
        if z < .5 and fam == "large_wt":
            return [sub(fam, "=", x)]
        return [sub(fam, r.choice([">", ">="]), x), sub(fam, r.choice(["<", "<="]), y)]
    if fam == "week_day":
        return [sub("week_day", "=", r.choice([d, d.lower(), d.capitalize()])) for d in [r.choice(DAYS)]]
    if fam == "daily_hour":
        h = r.randint(1, 22)
        z = r.random()
        if z < .3:
            return [sub("daily_hour", "=", str(h))]
        if z < .6:
            return [sub("daily_hour", r.choice(OPS), h)]
        return [sub("daily_hour", r.choice([">", ">="]), h), sub("daily_hour", r.choice(["<", "<="]), r.randint(h + 1, 23))]
    a, b = fam.split("+")
    x = and_rule(r, a, scale) + (s() if b == "size" and False else [s()] if b == "size" else and_rule(r, b, scale))
    if r.random() < .4:
        r.shuffle(x)
    return x


FAMS = ["size", "large_wt", "ready_wt", "week_day", "daily_hour", "week_day+daily_hour", "large_wt+size", "ready_wt+size",
        "week_day+size", "daily_hour+size", "ready_wt+large_wt", "none"]
SCALE = {"size": (1, 4000), "large_wt": (10, 50000), "ready_wt": (10, 50000), "week_day": (4 * H, 60 * H), "daily_hour": (H / 2, 12 * H),
         "none": (1, 4000)}


def spec(r, task, fam, scale, alts=1):
    rules = [] if fam == "none" else [and_rule(r, fam, scale) for _ in range(alts)]
    if fam == "none":
        ks = sorted(r.sample(range(2, 6), r.randint(1, 3)))
        w = [r.choice([1, 1, 3]) for _ in ks]
        p = [round(x / sum(w), 3) for x in w]
        p[-1] = round(1 - sum(p[:-1]), 3)
        one = r.choice([0, 0, .3])
        sd = [{"key": "1", "value": one}] + [{"key": str(k), "value": round(x * (1 - one), 6)} for k, x in zip(ks, p)]
    else:
        one = r.choice([0, 0, 0, .25, .6])
        sd = [{"key": "1", "value": one}, {"key": "2", "value": round(1 - one, 3)}]
    dk = sorted(r.sample(range(2, 9), r.randint(0, 3)))
    dd = [{"key": str(k), "value": r.choice([.5, .8, .25, 1.2, 1])} for k in dk]
    if r.random() < .3:
        dd.append({"key": "1", "value": 1.0})
    r.shuffle(dd)
    return {"task_id": task, "type": r.choice(["Sequential", "Parallel"]), "size_distrib": sd, "duration_distrib": dd, "firing_rules": rules}


def gen(r, fams, ample=False, ntasks=(1, 2), alts=(1, 1), **k):
    fam = r.choice(fams)
    lo, hi = SCALE.get(fam, SCALE.get(fam.split("+")[0]))
    scale = r.choice([lo, hi, r.uniform(lo, hi)])
    p = dict(budget=(1, 6), depth=3, p_event=.1, n=(2, 25), prio=.3, kinds={"seq": 3, "xor": 1.2, "and": 1.2, "or": .7, "loop": .7, "evg": .2},
             dur=(0, r.choice([10, scale, scale * 3])), p_drawing=.4)
    p.update(k)
    if "tree" not in p and r.random() < .35:
        p["tree"] = r.choice([["task", "t1"], ["seq", [["task", "t1"], ["task", "t2"]]],
                              ["seq", [["task", "t1"], ["task", "t2"], ["task", "t3"]]],
                              ["seq", [["and", "g1", [["task", "t1"], ["task", "t2"]]], ["task", "t3"]]]])
    sc = scenario.gen(r, **p)
    j = sc["json"]
    j["arrival_time_distribution"] = scenario.dist(r, p.get("arr_dists", ["fix", "uniform", "expon"]), 0, 0 if r.random() < .08 else 2 * scale)
    ts = model.tasks(sc["tree"])
    bt = r.sample(ts, min(len(ts), r.randint(*ntasks)))
    j["batch_processing"] = [spec(r, t, fam if q == 0 else r.choice(fams), scale, r.randint(*alts)) for q, t in enumerate(bt)]
    if ample:
        j["resource_calendars"].append({"id": "calb", "name": "calb", "time_periods": [dict(x) for x in scenario.FULL]})
        j["resource_profiles"].append({"id": "poolb", "name": "Batch pool", "resource_list": [
            {"id": "rb", "name": "Res b", "cost_per_hour": 3, "amount": max(2, 2 * sc["n"]), "calendar": "calb", "assignedTasks": []}]})
        for e in j["task_resource_distribution"]:
            if e["task_id"] in bt:
                e["resources"] = [dict({"resource_id": "rb"}, **scenario.dist(r, ["fix", "uniform"], 0, 100))]
    sc["fam"] = fam
    return sc


def batches(rows, task):
    """[(batch id, [rows in log order])] of one batched activity; rows executed alone separately"""
    out, alone = collections.OrderedDict(), []
    for x in rows:
        if x["label"] == task:
            b = x["attrs"]["batch_id"]
            if b in ("", "None"):
                alone.append(x)
            else:
                out.setdefault(b, []).append(x)
    return list(out.items()), alone
