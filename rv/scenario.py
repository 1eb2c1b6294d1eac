"""Random simulation scenarios (model + parameters), JSON-serialisable."""
import os
import random
from . import model
from .cal import DAYS

FULL = [{"from": "MONDAY", "to": "SUNDAY", "beginTime": "00:00:00", "endTime": "23:59:59.999"}]


def dist(r, kinds, lo, hi):
    """distribution over durations in [lo, hi] seconds"""
    k = r.choice(kinds)
    a, b = sorted([r.uniform(lo, hi), r.uniform(lo, hi)])
    if b - a < (hi - lo) * .05:
        b = a + (hi - lo) * .05 + 1
    a, b = round(a, r.choice([0, 0, 2])), round(b + 1, r.choice([0, 0, 2]))
    m = (a + b) / 2
    v = lambda *xs: [{"value": x} for x in xs]
    if k == "fix":
        return {"distribution_name": "fix", "distribution_params": v(a)}
    if k == "uniform":
        return {"distribution_name": "uniform", "distribution_params": v(a, b)}
    if k == "expon":
        return {"distribution_name": "expon", "distribution_params": v(a + (b - a) / 3, a, b)}
    if k == "norm":
        return {"distribution_name": "norm", "distribution_params": v(m, (b - a) / 3, a, b)}
    if k == "gamma":
        return {"distribution_name": "gamma", "distribution_params": v(m, ((b - a) / 3) ** 2, a, b)}
    if k == "lognorm":
        return {"distribution_name": "lognorm", "distribution_params": v(m, ((b - a) / 3) ** 2, a, b)}
    raise ValueError(k)


ALLD = ["fix", "uniform", "expon", "norm", "gamma", "lognorm"]


def fix(x):
    return {"distribution_name": "fix", "distribution_params": [{"value": x}]}


def bounds(d):
    p = [x["value"] for x in d["distribution_params"]]
    n = d["distribution_name"]
    if n == "fix":
        return p[0], p[0]
    return p[-2], p[-1]


def _t(r, grid=None):
    return "%02d:%02d:%02d" % (r.randint(0, 23), r.choice([0, 0, 15, 30, 45, 59, r.randint(0, 59)]),
                               r.choice([0, 0, 0, 0, r.randint(0, 59)]))


def periods(r, kind):
    if kind == "full":
        return [dict(x) for x in FULL]
    if kind == "office":
        b, e = r.choice([("08:00:00", "16:00:00"), ("09:00:00", "17:00:00"), ("06:30:00", "14:45:00")])
        return [{"from": "MONDAY", "to": r.choice(["FRIDAY", "SATURDAY"]), "beginTime": b, "endTime": e}]
    if kind == "lunch":
        return [{"from": "MONDAY", "to": "FRIDAY", "beginTime": "08:00:00", "endTime": "12:00:00"},
                {"from": "MONDAY", "to": "FRIDAY", "beginTime": "13:00:00", "endTime": "17:30:00"}]
    if kind == "night":
        return [{"from": "MONDAY", "to": "SUNDAY", "beginTime": "00:00:00", "endTime": "05:00:00"},
                {"from": "MONDAY", "to": "SUNDAY", "beginTime": "22:00:00", "endTime": "23:59:59.999"}]
    # random disjoint periods
    cuts = sorted(r.sample(range(1, 7), r.randint(0, 3)))
    groups, pr = [], 0
    for c in cuts + [7]:
        groups.append((pr, c - 1))
        pr = c
    keep = [g for g in groups if r.random() < .7] or [r.choice(groups)]
    out = []
    for a, b in keep:
        k = r.randint(1, 3)
        while True:
            ts = sorted({_t(r) for _ in range(2 * k)})
            if len(ts) == 2 * k and all(_gap(ts[2 * i], ts[2 * i + 1]) >= 1200 for i in range(k)):
                break
        if r.random() < .3:
            ts[0] = "00:00:00"
        if r.random() < .4:
            ts[-1] = "23:59:59.999"
        for i in range(k):
            out.append({"from": DAYS[a], "to": DAYS[b], "beginTime": ts[2 * i], "endTime": ts[2 * i + 1]})
    r.shuffle(out)
    return out


def _gap(a, b):
    f = lambda s: int(s[:2]) * 3600 + int(s[3:5]) * 60 + int(s[6:8])
    return f(b) - f(a)


NASTY = ['Check, "fast" path', "Über-Prüfung", "a;b,c", "line\nbreak", "'quote'", "Zażółć 日本", "tab\tname", " lead", "x" * 60,
         "50% & <more>"]


def names_for(r, ids, nasty):
    out = {}
    for i in ids:
        out[i] = ("%s %s" % (r.choice(NASTY), i)) if r.random() < nasty else "Task %s" % i
    return out


START_POOL = ["2022-06-21T13:22:30.035185+03:00", "2023-02-27T00:00:00+00:00", "2022-12-31T23:30:00+00:00",
              "2024-02-28T09:00:00-05:00", "2023-03-26T00:30:00+01:00", "2022-01-03T09:00:00.000000+00:00",
              "2023-07-15T17:59:59.500000+05:30", "2021-11-07T12:00:00+00:00",
              "2024-02-29T22:10:05-08:00", "2023-12-31T23:59:59.999999+00:00", "2022-10-30T00:15:00.250000+02:00"]


KINDS = {"seq": 3, "xor": 2, "and": 2, "or": 1.5, "loop": 1, "evg": 0.5, "leaf": .5}


def gen(r, **k):
    """k: kinds, budget, depth, p_event, variants, nasty, cal, dists, dur, load, n, prio, attrs ..."""
    p = dict(budget=(3, 9), depth=4, p_event=0.1, variants=("xor_join", "and_split", "end_join", "mixed"), nasty=0.15,
             cals=("full", "office", "lunch", "night", "random"), dists=ALLD, dur=(0, 4000), n=(1, 14),
             load=None, prio=0.4, p_loop_back=0.3, arr_cal=("full", "office", "random"), resources=(1, 5), p_drawing=.8,
             max_amount=3, tail=.3, p_big=float(os.environ.get("PBIG", ".12")), big=("many", "wide", "deep", "long", "crew"), arr_dists=("fix", "uniform", "expon", "norm", "gamma"), p_skip=.25)
    p.update(k)
    if r.random() < p["p_big"]:
        # something out of proportion
        big = r.choice(p["big"])
        if big == "many":
            p.update(n=(90, 220), budget=(min(2, p["budget"][0]), min(5, p["budget"][1])))
        elif big == "wide":
            p.update(max_branch=8, budget=(9, 20), kinds=dict(p.get("kinds") or KINDS, seq=1), n=(min(3, p["n"][0]), min(6, p["n"][1])), depth=3)
        elif big == "deep":
            p.update(depth=7, budget=(12, 20), n=(min(3, p["n"][0]), min(6, p["n"][1])))
        elif big == "long":
            p.update(dur=(p["dur"][0], p["dur"][1] * 180), n=(min(5, p["n"][0]), min(12, p["n"][1])))
        elif big == "crew":
            p.update(resources=(8, 13), max_amount=12)
        p["is_big"] = big
    g = model.Gen(r, p)
    tree = p["tree"] if p.get("tree") else None
    if tree is None:
        while True:
            g = model.Gen(r, p)
            tree = g.tree(r.randint(*p["budget"]), p["depth"])
            if model.tasks(tree):
                break
        if r.random() < p["tail"]:
            # an activity after everything else shows whether the case gets that far
            tree = ["seq", (tree[1] if tree[0] == "seq" else [tree]) + [g.task()]]
    tids, eids = model.tasks(tree), model.events(tree)
    names = names_for(r, tids + eids, p["nasty"])
    d = model.Drawing(tree, names, r if r.random() < p["p_drawing"] else None, p["variants"])
    sc = {"tree": tree, "names": names, "fakes": d.has_fakes()}
    sc["n"] = r.randint(*p["n"])
    sc["start"] = p.get("start") or r.choice(START_POOL)
    sc["seed"] = r.randrange(1 << 31)
    sc["log_events"] = True
    if p.get("is_big"):
        sc["big"] = p["is_big"]
    j = {}
    # resources
    nr = r.randint(*p["resources"])
    rids = ["r%d" % i for i in range(nr)]
    cals = []
    pools = [{"id": "pool%d" % i, "name": "Pool %d" % i, "resource_list": []} for i in range(r.randint(1, min(3, nr)))]
    for i, rid in enumerate(rids):
        cid = "cal%d" % r.randrange(i + 1)
        if cid not in [c["id"] for c in cals]:
            cals.append({"id": cid, "name": cid, "time_periods": periods(r, r.choice(p["cals"]))})
        nm = ("%s %s" % (r.choice(NASTY), rid)) if r.random() < p["nasty"] else "Res %s" % rid
        r.choice(pools)["resource_list"].append(
            {"id": rid, "name": nm, "cost_per_hour": r.choice([0, 1, 20, 35.5]), "amount": r.choice([1, 1, 1, 2, p["max_amount"]]),
             "calendar": cid, "assignedTasks": []})
    pools = [x for x in pools if x["resource_list"]]
    j["resource_profiles"] = pools
    j["resource_calendars"] = cals
    # allocation
    trd = []
    style = r.choice(["same", "random", "random", "nested", "single"])
    for i, t in enumerate(tids):
        if style == "same":
            rs = rids
        elif style == "nested":
            rs = rids[:1 + i % nr]
        elif style == "single":
            rs = [r.choice(rids)]
        else:
            rs = r.sample(rids, r.randint(1, nr))
        lst = []
        for rid in r.sample(rs, len(rs)):
            lst.append(dict({"resource_id": rid}, **dist(r, p["dists"], *p["dur"])))
        trd.append({"task_id": t, "resources": lst})
    r.shuffle(trd)
    j["task_resource_distribution"] = trd
    mean = sum(p["dur"]) / 2
    load = p["load"] or r.choice([.1, .5, 1, 3])
    j["arrival_time_distribution"] = dist(r, p["arr_dists"], 0, 2 * mean * load)
    j["arrival_time_calendar"] = periods(r, r.choice(p["arr_cal"]))
    gbp = []
    for n in model.gateways(tree):
        fl = model.flows(n)
        if n[0] == "loop":
            b = round(r.uniform(0.05, p["p_loop_back"]), 2)
            pr = [round(1 - b, 2), b]
        elif n[0] == "xor":
            w = [r.choice([.1, 1, 1, 3]) for _ in fl]
            pr = [round(x / sum(w), 3) for x in w]
            pr[-1] = round(1 - sum(pr[:-1]), 3)
        else:
            w = [r.choice([.2, 1, 1, 2, 3]) for _ in fl]
            pr = [round(x / sum(w), 3) for x in w]
            pr[-1] = round(1 - sum(pr[:-1]), 3)
        e = [{"path_id": f, "value": x} for f, x in zip(fl, pr)]
        r.shuffle(e)
        gbp.append({"gateway_id": n[1], "probabilities": e})
    j["gateway_branching_probabilities"] = gbp
    if eids:
        j["event_distribution"] = [dict({"event_id": e}, **dist(r, p["dists"], *p["dur"])) for e in eids]
    if r.random() < p["prio"]:
        add_priority(r, j)
    sc["json"] = j
    sc["bpmn"] = d.xml()
    return sc


def add_priority(r, j):
    ca = [{"name": "client_type", "type": "discrete",
           "values": [{"key": "REG", "value": .5}, {"key": "BUS", "value": .3}, {"key": "VIP", "value": .2}]},
          {"name": "amount", "type": "continuous",
           "values": {"distribution_name": "uniform", "distribution_params": [{"value": 0}, {"value": 1000}]}}]
    j["case_attributes"] = ca
    # an amount that is the same in every case lies exactly on an edge of some range
    v = r.choice([r.randint(50, 800), r.randint(50, 800), round(r.uniform(50, 800), 2), r.choice([2500000, 7e10])]) if r.random() < .35 else None
    if v is not None:
        ca[1]["values"] = {"distribution_name": "fix", "distribution_params": [{"value": v}]}
    rules, used = [], set()
    for _ in range(r.randint(1, 3)):
        lvl = r.choice([x for x in range(1, 12) if x not in used])
        used.add(lvl)
        ors = []
        for _ in range(r.randint(1, 2)):
            ands = []
            for _ in range(r.randint(1, 2)):
                if r.random() < .5:
                    ands.append({"attribute": "client_type", "comparison": "=", "value": r.choice(["REG", "BUS", "VIP"])})
                else:
                    a = r.randint(0, 900)
                    b = a + r.randint(50, 500)
                    if v is not None and r.random() < .8:
                        a, b = r.choice([(v, b if b > v else v + 1), (v - r.randint(1, 50), v), (v, v), (round(v + .25, 2), round(v + .25, 2))])
                    ands.append({"attribute": "amount", "comparison": "in", "value": [str(a), r.choice(["inf", str(b)])]})
            ors.append(ands)
        rules.append({"priority_level": r.choice([lvl, str(lvl)]), "rules": ors})
    j["prioritisation_rules"] = rules


def case_priority(rules, attrs):
    best = None
    for ru in rules or []:
        ok = False
        for ands in ru["rules"]:
            a = True
            for c in ands:
                v = attrs[c["attribute"]]
                if c["comparison"] == "in":
                    lo = float(c["value"][0])
                    hi = float("inf") if c["value"][1] == "inf" else float(c["value"][1])
                    a = a and lo <= float(v) <= hi
                else:
                    a = a and str(v) == str(c["value"])
            ok = ok or a
        if ok and (best is None or int(ru["priority_level"]) < best):
            best = int(ru["priority_level"])
    return best if best is not None else float("inf")


class View:
    """Convenient access to what a scenario promises."""

    def __init__(self, sc):
        from .cal import Cal
        j = sc["json"]
        self.sc = sc
        self.cals = {c["id"]: Cal(c["time_periods"]) for c in j["resource_calendars"]} if j.get("model_type") != "FUZZY" else {}
        self.arr = Cal(j["arrival_time_calendar"])
        self.res = {}      # resource name -> dict
        self.members = {}  # profile id -> [resource names]
        for pool in j["resource_profiles"]:
            for x in pool["resource_list"]:
                a = int(x["amount"])
                for i in range(a):
                    nm = "%s_%d" % (x["name"], i) if a > 1 else x["name"]
                    rid = "%s_%d" % (x["id"], i) if a > 1 else x["id"]
                    self.res[nm] = {"id": rid, "pid": x["id"], "cal": self.cals.get(x["calendar"]), "cost": float(x["cost_per_hour"]),
                                    "pool": pool["id"], "calendar": x["calendar"]}
                    self.members.setdefault(x["id"], []).append(nm)
        self.alloc = {}  # task -> {resource name: dist}
        for e in j["task_resource_distribution"]:
            a = self.alloc.setdefault(e["task_id"], {})
            for x in e["resources"]:
                for nm in self.members[x["resource_id"]]:
                    a[nm] = x
        self.evd = {e["event_id"]: e for e in j.get("event_distribution", [])}
        self.label = {v: k for k, v in sc["names"].items()}
        self.tasks = set(model.tasks(sc["tree"])) if sc.get("tree") else set(self.alloc)
        self.events = set(model.events(sc["tree"])) if sc.get("tree") else set(self.evd)
