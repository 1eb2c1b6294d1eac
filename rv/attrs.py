"""Random case/event/global attributes and branch conditions, and their independent evaluation."""


def v(*xs):
    return [{"value": x} for x in xs]


def discrete(r, keys):
    w = [r.choice([1, 1, 2, 5]) for _ in keys]
    p = [round(x / sum(w), 3) for x in w]
    p[-1] = round(1 - sum(p[:-1]), 3)
    return [{"key": k, "value": x} for k, x in zip(keys, p)]


def continuous(r):
    k = r.choice(["uniform", "fix", "norm", "expon"])
    a, b = sorted([r.randint(0, 500), r.randint(0, 1000)])
    b += 1
    if k == "uniform":
        return {"distribution_name": "uniform", "distribution_params": v(a, b)}
    if k == "fix":
        return {"distribution_name": "fix", "distribution_params": v(r.choice([a, b, 240, 240, 240.5, 3000000000]))}
    if k == "norm":
        return {"distribution_name": "norm", "distribution_params": v((a + b) / 2, (b - a) / 4, a, b)}
    return {"distribution_name": "expon", "distribution_params": v(a + (b - a) / 3, a, b)}


KEYS = [["REG", "BUS", "VIP"], ["GOOD", "BAD", "NEW"], ["1", "2", "10", "30"], ["yes", "no"]]


def spec(r, name):
    """attribute declaration (case, global or event style)"""
    if r.random() < .5:
        return {"name": name, "type": "discrete", "values": discrete(r, r.choice(KEYS))}
    return {"name": name, "type": "continuous", "values": continuous(r)}


def condition(r, specs):
    """one atomic condition over the declared attributes"""
    s = r.choice(specs)
    if s["type"] == "discrete":
        keys = [x["key"] for x in s["values"]]
        if keys[0].isdigit() and r.random() < .6:
            return {"attribute": s["name"], "comparison": r.choice(["<", "<=", ">", ">="]), "value": r.choice(["2", "9", "10", 3, "1.5"])}
        return {"attribute": s["name"], "comparison": r.choice(["=", "=", "!="]), "value": r.choice(keys + ["NONE"])}
    if s["type"] == "continuous":
        lo, hi = 0, 1000
        x = r.choice([240, r.randint(lo, hi), r.randint(lo, 500)])
        c = r.choice(["<", "<=", ">", ">=", "in", "in", "!=", "="])
        if c == "in":
            a = r.choice([x, 0, 240])
            return {"attribute": s["name"], "comparison": "in", "value": [str(a), r.choice(["inf", str(a), str(a + r.randint(0, 600))])]}
        return {"attribute": s["name"], "comparison": c, "value": x if c in ("=",) else r.choice([x, str(x)])}


def rule(r, specs, rid):
    return {"id": rid, "rules": [[condition(r, specs) for _ in range(r.choice([1, 1, 2, 3]))] for _ in range(r.choice([1, 1, 2]))]}


def num(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return None


def holds1(c, env):
    """env: attribute -> printed value ('' = never assigned)"""
    x = env.get(c["attribute"], "")
    if x == "":
        return False
    y, k = c["value"], c["comparison"]
    if k == "in":
        hi = float("inf") if y[1] == "inf" else float(y[1])
        return float(y[0]) <= float(x) <= hi
    if k == "=":
        return float(x) == y if not isinstance(y, str) else x == y
    a, b = num(x), num(y)
    if a is None or b is None:
        a, b = x, str(y)
    return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "!=": a != b}[k]


def holds(rule, env):
    return any(all(holds1(c, env) for c in ands) for ands in rule["rules"])
