"""C11: a batch is released exactly when its firing rule becomes true."""
from .. import batch
from ..batch import US, H
from ..cal import DAYS, DAY
from ..sim import execute, explain, can_be_empty, shape, short

N = {"quick": 6000, "thorough": 50000}
FAMS = ["size", "size", "large_wt", "ready_wt", "week_day", "daily_hour", "week_day+size", "week_day+daily_hour"]
RULE = ("random models with batched activities and firing rules over one attribute (size, large_wt, ready_wt, week_day, daily_hour, "
        "size or hour on a week day), 1-3 alternatives; the batched activity has its own round-the-clock resources, so the first start of a batch "
        "is its release; the release is compared with the first instant at which the rule holds over the enabled items; "
        "non-trivial: a batch of >= 2 items released while other work was left; distinct by rules and model shape")
MUST_SEE = ["batches", "released_on_time", "released_at_once", "released_later", "end_batches", "waited_more_than_a_day", "shared_pool_runs",
            "alternatives"] + ["on_time_" + f for f in set(FAMS)]
ASSUME = ["sub-second slack of the waiting-time rules (a strict bound is realised one second later) and around full hours",
          "hour conditions with only an upper bound, and AND rules mixing attributes other than week_day+size and week_day with the beginning of an hour, are recorded findings"]
TOL = 1_100_000
EPS = 5


def gen(r, tier, i):
    ample = i % 6 != 5
    alts = (1, 1) if i % 3 else (2, 3)
    while True:
        sc = batch.gen(r, FAMS, ample, prio=0 if i % 4 else .5, ntasks=(1, 1) if i % 5 else (2, 3), alts=alts)
        if can_be_empty(sc["tree"]):
            continue
        if all(sound(a) for b in sc["json"]["batch_processing"] for a in b["firing_rules"]):
            sc["ample"] = ample
            return sc


def sound(conds):
    """not one of the recorded findings"""
    at = {c["attribute"] for c in conds}
    if at == {"daily_hour"}:
        return conds[0]["comparison"] in (">", ">=", "=") or len(conds) > 1
    if at == {"week_day", "daily_hour"}:
        return not any(c["comparison"] in ("<", "<=") for c in conds)
    return len(at) == 1 or at == {"week_day", "size"}


def windows(conds, ens, m):
    """instants (lo, hi) at which the conditions hold over the items enabled by then, with bounds shrunk by the margin m (us)"""
    ens = sorted(ens)
    out = []
    for q in range(1, len(ens) + 1):
        lo, hi = ens[q - 1], ens[q] if q < len(ens) else None
        size = True
        base_first, base_last = ens[0], ens[q - 1]
        day = hour = None
        a, z = lo, hi
        for c in conds:
            at, op = c["attribute"], c["comparison"]
            if at == "size":
                n = int(c["value"])
                size = size and {"=": q == n, "<": q < n, "<=": q <= n, ">": q > n, ">=": q >= n}[op]
            elif at in ("large_wt", "ready_wt"):
                base = base_first if at == "large_wt" else base_last
                x = base + round(float(c["value"]) * US)
                if op in (">", ">=", "="):
                    a = max(a, x + m)
                if op in ("<", "<=", "="):
                    z = min(z, x + 1 - m) if z is not None else x + 1 - m
                    if op == "=":
                        z = max(z, x + m + 1)
            elif at == "week_day":
                day = DAYS.index(c["value"].upper())
            else:
                v = int(c["value"]) * 3600 * US
                hour = list(hour or (0, DAY))
                if op in (">", ">=", "="):
                    hour[0] = v + m * (op != "=")
                if op in ("<", "<="):
                    hour[1] = v - m
                if op == "=":
                    hour[1] = v + 1
        if not size:
            continue
        if day is None and hour is None:
            if z is None or a < z:
                out.append((a, z))
            continue
        d = a // DAY
        for k in range(d, d + 9):
            if day is not None and k % 7 != day:
                continue
            x, y = (k * DAY, (k + 1) * DAY) if hour is None else (k * DAY + hour[0], k * DAY + hour[1])
            if day is not None and k == d:
                continue        # items enabled within the day may as well wait for the next one
            x, y = max(a, x), y if z is None else min(z, y)
            if x < y:
                out.append((x, y))
    return out


def holds(conds, ens, t):
    """do the conditions hold at t over exactly these items, up to the tolerance"""
    ens = sorted(ens)
    k = len(ens)
    for c in conds:
        at, op = c["attribute"], c["comparison"]
        if at == "size":
            n = int(c["value"])
            if not {"=": k == n, "<": k < n, "<=": k <= n, ">": k > n, ">=": k >= n}[op]:
                return False
        elif at == "week_day":
            if DAYS[(t // DAY) % 7] != c["value"].upper():
                return False
        else:
            if at == "daily_hour":
                d, x = t % DAY, int(c["value"]) * 3600 * US
            else:
                d, x = t - (ens[0] if at == "large_wt" else ens[-1]), float(c["value"]) * US
            if op in (">", ">=", "=") and d < x - TOL or op in ("<", "<=", "=") and d > x + TOL:
                return False
    return True


def high(rules):
    """largest waiting time of the oldest item any alternative admits, None if unbounded"""
    hs = [float(c["value"]) for a in rules for c in a if c["attribute"] == "large_wt" and c["comparison"] in ("<", "<=", "=")]
    return max(hs) if hs else None


def judge(sc, out):
    v, res = execute(sc, out)
    j = sc["json"]
    rows = res.log.rows
    conf = {b["task_id"]: b for b in j["batch_processing"]}
    by = res.log.by_case()
    dep = {}
    for c in by:
        u = explain(sc, by[c], True)
        if u is None:
            out.bad("lost-or-repeated-item", "case %d is not a complete run of the model" % c)
            return
        dep.update({i: d[0] for i, d in u.items()})
    quiet, low = set(), len(rows) + 1
    for r in reversed(rows):
        if r["label"] not in conf or r["attrs"]["batch_id"] in ("", "None"):
            low = min(low, dep[r["idx"]])
        if low >= r["idx"]:
            quiet.add(r["idx"])
    out.obs["shared_pool_runs"] += not sc["ample"]
    for t, b in conf.items():
        rules = b["firing_rules"]
        bs, alone = batch.batches(rows, t)
        for bid, rs in bs:
            ens = [r["en"] for r in rs]
            R, mx, mn = min(r["st"] for r in rs), max(ens), min(ens)
            out.obs["batches"] += 1
            what = "batch of %s (cases %s, enabled %s, rules %s)" % (t, [r["case"] for r in rs], [r["raw"][2] for r in rs], rules)
            if R < mx - EPS:
                out.bad("before-enabled", what + " started at %s, before all its items were enabled" % min(r["raw"][3] for r in rs))
                continue
            if not sc["ample"] or not rules:
                continue
            at = "started at %s" % min(r["raw"][3] for r in rs)
            end = any(m in quiet for m in range(max(dep[r["idx"]] for r in rs) + 1, min(r["idx"] for r in rs) + 1))
            out.obs["end_batches"] += end
            out.obs["waited_more_than_a_day"] += R - mn > DAY
            h = high(rules)
            expired = h is not None and R - mn > h * US - TOL
            if any(c["attribute"] in ("week_day", "daily_hour") for a in rules for c in a) and any(
                    0 < abs((e + H * US // 2) % (H * US) - H * US // 2) <= TOL for e in ens):
                out.obs["enabled_within_a_second_of_the_hour"] += 1
                continue
            # held before the release, over the items enabled then
            wins = [w for a in rules for w in windows(a, ens, TOL) if w[0] >= sorted(ens)[min(1, len(ens) - 1)]]
            first = min((w[0] for w in wins), default=None)
            if any(holds(a, ens, R) for a in rules):
                if len(rs) > 1 and first is not None and first + TOL < R and not (end and (len(rules) > 1 or any(c["attribute"] == "week_day" for c in rules[0]))):
                    out.bad("late", what + " %s, but its rule already held %.1f s earlier" % (at, (R - first) / US))
                    continue
                out.obs["released_on_time"] += 1
                if len(rs) > 1 and not end:
                    out.obs["on_time_" + sc["fam"]] += 1
                    out.obs["released_at_once" if R - mx < 10 else "released_later"] += 1
                    out.obs["alternatives"] += len(rules) > 1
                    out.sig = repr(rules) + shape(sc)
                continue
            if expired:
                out.obs["expired"] += 1
                continue
            if end and (len(rs) == 1 or any(holds([c for c in a if c["attribute"] != "size"], ens, R) for a in rules)):
                continue
            if end and (len(rules) > 1 or len(rules[0]) > 1 and rules[0][0]["attribute"] in ("size", "week_day")):
                continue
            out.bad("early" if not end else "end", what + " %s, when no rule was satisfied by its items%s" % (at, " (end of the simulation)" if end else ""))
    out.sample = dict(short(sc, res.log), batch_processing=j["batch_processing"])


def fixed():
    import glob, json, os
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "fixed")
    return {os.path.basename(f)[4:-5]: json.load(open(f)) for f in sorted(glob.glob(os.path.join(d, "C11_*.json")))}
