"""Random attribute expressions as trees, their text, and an independent evaluation (no ast, no eval).

Conventions of the simulator (documented in properties C20): an undefined operation has the value 0 where it occurs; a numeric
result beyond the finite range becomes +-float32 max.
"""
import math

FMAX = 3.4028234663852886e38
TINY = 1.1754943508222875e-38


class Skip(Exception):
    """the value is outside the envelope that the oracle judges (e.g. precision loss at the limits)"""


FUN1 = ["sqrt", "exp", "log", "sin", "cos", "floor", "ceil", "fabs", "log10", "atan", "tan", "log2", "log1p", "expm1", "sinh", "cosh",
        "tanh", "degrees", "radians", "trunc", "asin", "acos", "isnan", "isinf", "isfinite", "erf"]
FUN2 = ["pow", "fmod", "hypot", "atan2", "copysign"]
PREC = {"or": 1, "and": 2, "not": 3, "cmp": 4, "+": 5, "-": 5, "*": 6, "/": 6, "%": 6, "//": 6, "neg": 7, "pos": 7, "**": 8}


class Gen:
    def __init__(self, r, nums, strs=None):
        """nums: names of numeric attributes; strs: {name: [keys]} of discrete ones"""
        self.r, self.nums, self.strs = r, list(nums), dict(strs or {})

    def lit(self):
        r = self.r
        return ("num", r.choice([0, 1, 2, 3, 5, 10, 0.5, 1.5, 2.25, 100, 0.1, r.randint(0, 1000), round(r.uniform(0, 50), 2), 1e6, 7]))

    def num(self, d):
        r = self.r
        if d <= 0 or r.random() < .15:
            return ("var", r.choice(self.nums)) if self.nums and r.random() < .6 else self.lit()
        k = r.random()
        if k < .62:
            return ("bin", r.choice(["+", "-", "*", "/", "+", "-", "*", "%", "//", "**"]), self.num(d - 1), self.num(d - 1))
        if k < .72:
            return (r.choice(["neg", "neg", "neg", "pos"]), self.num(d - 1))
        if k < .86:
            return ("call", r.choice(FUN1), [self.num(d - 1)])
        if k < .93:
            return ("call", r.choice(FUN2), [self.num(d - 1), self.num(d - 1)])
        return ("bin", r.choice("+*"), self.num(d - 1), self.bool(d - 1))

    def cmp(self, d):
        r = self.r
        if self.strs and r.random() < .35:
            n = r.choice(sorted(self.strs))
            return ("cmp", [r.choice(["==", "!="])], [("var", n), ("str", r.choice(self.strs[n] + ["NONE"]))])
        if r.random() < .12:
            return ("cmp", [r.choice(["<", "<="]), r.choice(["<", "<="])], [self.num(d - 1), self.num(d - 1), self.num(d - 1)])
        return ("cmp", [r.choice(["<", "<=", ">", ">=", "==", "!="])], [self.num(d - 1), self.num(d - 1)])

    def bool(self, d):
        r = self.r
        if d <= 0 or r.random() < .5:
            return self.cmp(min(d, 1))
        k = r.random()
        if k < .4:
            return ("and", [self.bool(d - 1) for _ in range(r.randint(2, 3))])
        if k < .8:
            return ("or", [self.bool(d - 1) for _ in range(r.randint(2, 3))])
        return ("not", self.bool(d - 1))


def prec(e):
    k = e[0]
    if k == "bin":
        return PREC[e[1]]
    return PREC.get(k, 10)


def text(e, r=None):
    k = e[0]

    def sub(x, need):
        s = text(x, r)
        return "(%s)" % s if prec(x) < need or (r and r.random() < .1) else s
    if k == "num":
        return repr(e[1])
    if k == "str":
        q = "'" if not r or r.random() < .5 else '"'
        return q + e[1] + q
    if k == "var":
        return e[1]
    if k == "bin":
        p = PREC[e[1]]
        sp = " " if not r or r.random() < .8 else ""
        if e[1] == "**":   # right associative; unary minus on the left binds less tightly
            return sub(e[2], p + 1) + sp + "**" + sp + sub(e[3], PREC["neg"])
        return sub(e[2], p) + sp + e[1] + sp + sub(e[3], p + 1)
    if k == "neg":
        return "-" + sub(e[1], PREC["neg"])
    if k == "pos":
        return "+" + sub(e[1], PREC["neg"])
    if k == "cmp":
        s = sub(e[2][0], 5)
        for o, x in zip(e[1], e[2][1:]):
            s += " %s " % o + sub(x, 5)
        return s
    if k in ("and", "or"):
        return (" %s " % k).join(sub(x, PREC[k] + 1) for x in e[1])
    if k == "not":
        return "not " + sub(e[1], 3)
    if k == "call":
        return "%s(%s)" % (e[1], ", ".join(text(x, r) for x in e[2]))
    raise ValueError(k)


def _isnum(x):
    return isinstance(x, (int, float))


def _clip(x):
    """intermediate magnitudes at which python ints/floats and the simulator may differ are not judged"""
    if isinstance(x, complex):
        return 0
    if isinstance(x, int) and not isinstance(x, bool) and abs(x) > 10 ** 300:
        raise Skip()
    return x


def ev(e, env):
    k = e[0]
    if k in ("num", "str"):
        return e[1]
    if k == "var":
        return env[e[1]]
    if k == "bin":
        a, b = ev(e[2], env), ev(e[3], env)
        if not (_isnum(a) and _isnum(b)):
            raise Skip()
        o = e[1]
        try:
            if o == "+":
                return _clip(a + b)
            if o == "-":
                return _clip(a - b)
            if o == "*":
                return _clip(a * b)
            if o == "/":
                return a / b
            if o == "%":
                return a % b
            if o == "//":
                return a // b
            if abs(b) > 400 and abs(a) not in (0, 1):
                raise Skip()
            if isinstance(a, int) and isinstance(b, int) and b > 0 and abs(a) > 1 and b * math.log10(abs(a)) > 300:
                raise Skip()
            return _clip(a ** b)
        except ZeroDivisionError:
            return 0
        except OverflowError:
            if a < 0 and b != int(b):
                raise Skip()
            return FMAX if a > 0 or b % 2 == 0 else -FMAX
    if k == "neg":
        return -ev(e[1], env)
    if k == "pos":
        return +ev(e[1], env)
    if k == "cmp":
        vs = [ev(x, env) for x in e[2]]
        f = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
             "==": lambda a, b: a == b, "!=": lambda a, b: a != b}
        for a, b in zip(vs, vs[1:]):
            if _isnum(a) and _isnum(b) and a != b and abs(a - b) <= 1e-9 * max(abs(a), abs(b)):
                raise Skip()
        return all(f[o](a, b) for o, a, b in zip(e[1], vs, vs[1:]))
    if k == "and":
        return all([ev(x, env) for x in e[1]])
    if k == "or":
        return any([ev(x, env) for x in e[1]])
    if k == "not":
        return not ev(e[1], env)
    if k == "call":
        a = [ev(x, env) for x in e[2]]
        if e[1] in ("atan2", "copysign") and any(x == 0 for x in a):
            raise Skip()        # the sign of a zero is not visible
        try:
            return getattr(math, e[1])(*a)
        except OverflowError:
            return FMAX
        except (ValueError, ZeroDivisionError):
            return 0
    raise ValueError(k)


def value(e, env):
    """value of an expression attribute"""
    x = ev(e, env)
    if isinstance(x, (bool, str)):
        return x
    if x != x:
        raise Skip()
    if abs(x) > FMAX * .999999:
        return FMAX if x > 0 else -FMAX
    if x != 0 and abs(x) < TINY * 1.1:
        raise Skip()
    return x


def same(a, b):
    """values equal up to printing and rounding; a may be text from a log"""
    if isinstance(b, bool):
        return a is b or str(a) == str(b)
    if isinstance(b, str):
        return str(a) == b
    try:
        a = float(a)
    except (TypeError, ValueError):
        return False
    if a != a:
        return False
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b)) or (abs(b) > 1e38 and abs(a - b) < 1e-6 * abs(b))
