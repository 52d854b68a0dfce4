"""V04: lengths (LengthOps.tla)."""
import operator
import random

import common
from common import QUICK, attempt, pool_map
from c_matrix import number

CFG = """SPECIFICATION Spec
CONSTANTS Amounts = {%s} Random = %s
INVARIANTS InvPlus InvMinus InvOrder InvUnits Emit
"""
COMPARE = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}


def text_of(a, u, rng):
    return number(a / 100.0, rng) + u


def length(a, u, rng):
    from svgio import Length
    r = rng.randrange(4)
    if r == 0:
        return Length(a / 100.0, u)
    if r == 1 and not u:
        return Length(rng.choice([a / 100.0, a // 100 if a % 100 == 0 else a / 100.0]))
    return Length(text_of(a, u, rng))


def operand(a, u, rng, number_too=True, length_too=True):
    r = rng.randrange(3)
    if r == 0 and u == "" and number_too:
        return a // 100 if a % 100 == 0 and rng.random() < 0.5 else a / 100.0
    if r < 2 or not length_too:
        return text_of(a, u, rng)
    return length(a, u, rng)


def fields(x):
    from svgio import Length
    return (x.amount, x.units) if isinstance(x, Length) else x


def judge(got, gives, scale, floor=1.0):
    """None if the outcome is the prescribed one."""
    from svgio import Length
    kind = gives["is"]
    if kind == "any":
        return None
    if kind == "ValueError":
        return None if got[0] == "exc" and got[1] == "ValueError" else "ValueError"
    if got[0] != "ok":
        return kind
    v = got[1]
    if kind == "none":
        return None if v is None else "nothing"
    if kind == "truth":
        return None if v is gives["t"] else gives["t"]
    want = gives["n"] * gives.get("k", 1) / gives["d"]
    tol = (1e-4 if gives["near"] else 1e-9) * max(abs(want), scale, 1e-3 * min(floor, 1.0))
    if kind == "length":
        return None if isinstance(v, Length) and v.units == gives["unit"] and abs(v.amount - want) <= tol else "%r%s" % (want, gives["unit"])
    return None if isinstance(v, (int, float)) and abs(v - want) <= tol else want


def one(job):
    from svgio import Length, Viewbox
    case, index = job
    rng = random.Random(index)
    a, u, op, kind = case["a"], case["u"], case["op"], case["kind"]
    # relations of amounts are homogeneous: they hold for any common multiple (a power of two is exact)
    f = rng.choice([1.0, 1.0, 2.0 ** -13, 2.0 ** 20]) if kind == "pair" and op != "*" else 1.0
    if f != 1.0:
        a *= f
    x = length(a, u, rng)
    if (x.amount, x.units) != (a / 100.0, u):
        return "%r is read as %r of %r" % ((a / 100.0, u), x.amount, x.units)
    if f >= 1.0 and rng.random() < 0.1:
        for t in (str(x), repr(x)):
            y = eval(t, {"Length": Length}) if t.startswith("Length") else Length(t)
            if y.units != u or abs(y.amount - x.amount) > 1e-9 or y != x or not y == x:
                return "%r is written as %s" % ((a / 100.0, u), t)
    if kind == "pair":
        b, v = case["b"], case["v"]
        b = b * f if f != 1.0 else b
        y = operand(b, v, rng, op not in "/*", op not in ("r+", "r-"))
        if op in COMPARE:
            got = attempt(COMPARE[op], x, y)
        elif op == "+=":
            got = attempt(operator.iadd, x, y)
        elif op == "-=":
            got = attempt(operator.isub, x, y)
        elif op in ("r+", "r-"):
            got = attempt(operator.add if op == "r+" else operator.sub, y, x)
        else:
            got = attempt({"+": operator.add, "-": operator.sub, "/": operator.truediv, "*": operator.mul}[op], x, y)
        what = "%s%s %s %r" % (a / 100.0, u, op, fields(y))
        if isinstance(y, Length) and (y.amount, y.units) != (b / 100.0, v):
            return what + " changed the right operand to %r" % (fields(y),)
        # cancellation leaves rounding of the larger terms
        g = case["gives"]
        if g["is"] == "length" and f != 1.0:
            case = dict(case, gives=dict(g, n=g["n"] * f))
            g = case["gives"]
        if g["is"] == "length":
            terms = max(abs(a / 100.0), abs(g["n"] / g["d"] - a / 100.0), abs(g["n"] / g["d"] + a / 100.0) if op == "r-" else 0)
        else:
            terms = 0
        if g["is"] == "length" and op == "*":
            terms = 0
    elif kind == "scale":
        k = case["b"] / 100.0
        k = int(k) if k == int(k) and rng.random() < 0.5 else k
        fn = {"*k": lambda: x * k, "k*": lambda: k * x, "*=k": lambda: operator.imul(x, k), "/k": lambda: x / k, "neg": lambda: -x, "abs": lambda: abs(x)}[op]
        got = attempt(fn)
        what = "%s%s %s %r" % (a / 100.0, u, op, k)
        terms = 0
    elif kind == "read":
        got = attempt(lambda: float(x) if op == "float" else x.value_in_units if op == "value_in_units" else getattr(x, op)())
        what = "%s of %s%s" % (op, a / 100.0, u)
        terms = 0
    else:
        c = case["c"]
        kw = {}
        if c["ppi"] >= 0:
            kw["ppi"] = rng.choice([c["ppi"], float(c["ppi"])])
        if c["font"] >= 0:
            kw["font_size"] = rng.choice([c["font"], float(c["font"]), Length("%dpx" % c["font"]), Length("%rpt" % (c["font"] / 1.3333))])
        if c["height"] >= 0:
            kw["font_height"] = rng.choice([c["height"], float(c["height"])])
        if c["box"]:
            t = "%d %d %d %d" % (rng.randrange(-50, 9), rng.randrange(-50, 9), *c["box"])
            kw["viewbox"] = rng.choice([t, t, Viewbox(t)])
        if c["rel"] >= 0:
            n, w = c["rel"], c["relunit"]
            kw["relative_length"] = rng.choice([n, float(n), "%d" % n]) if w == "" else rng.choice([Length(n, w), "%d%s" % (n, w)])
        g = case["gives"]
        terms = 0
        if kind == "to":
            if kw["ppi"] == 96 and rng.random() < 0.5:
                del kw["ppi"]
            got = attempt(lambda: getattr(x, op)(**kw))
            unit, per = {"to_mm": ("mm", 25.4), "to_cm": ("cm", 2.54), "to_inch": ("in", 1.0)}[op]
            if g["is"] == "number":
                g = {"is": "length", "n": g["n"] * per * g["k"], "d": g["d"] * c["ppi"], "unit": unit, "near": True}
        else:
            got = attempt(lambda: x.value(**kw))
        what = "%s of %s%s in %r" % (op or "value", a / 100.0, u, kw)
        if g["is"] == "same":
            g = {"is": "length", "n": a, "d": 100, "unit": u, "near": False}
        bad = judge(got, g, terms)
        if bad is None and got[0] == "ok" and (x.amount, x.units) != (a / 100.0, u):
            return what + " changed the length"
        return None if bad is None else "%s gives %r, not %s" % (what, fields(got[1]) if got[0] == "ok" else got[1:], bad)
    bad = judge(got, case["gives"], terms, f)
    if bad is not None:
        return "%s gives %r, not %s" % (what, fields(got[1]) if got[0] == "ok" else got[1:], bad)
    inplace = op in ("+=", "-=", "*=k")
    if not inplace and (x.amount, x.units) != (a / 100.0, u):
        return what + " changed the left operand"
    if inplace and got[0] == "ok" and fields(got[1]) != fields(x):
        return what + " did not happen in place"
    return None


def wrapped(job):
    r = attempt(one, job)
    return r[1] if r[0] == "ok" else "raised %s %s" % r[1:]


def nothing():
    """The length of nothing, and the nothing length."""
    from svgio import Length
    z, n = Length(), Length(None)
    if (z.amount, z.units) != (0.0, "") or not z == 0 or not z == "0px":
        return "Length() is %r" % (fields(z),)
    if n.amount is not None or n.value(ppi=96) is not None or n.value() is not None or str(n) != "none":
        return "Length(None) is %r" % (fields(n),)
    for x in (Length("3mm"), Length("0"), Length("50%")):
        if x == None or not (x != None):  # noqa
            return "%r equals None" % x
    return None


def check_V04(check):
    r = attempt(nothing)
    if r != ("ok", None):
        check.violation(str(r[1:]), dict(case="nothing"))
    prints = check.mc("LengthOps", CFG % ("0, 100, 250" if QUICK else "0, 37, 100, 254, 1200, 7200", "FALSE")).prints
    prints += check.mc("LengthOps", CFG % ("0", "TRUE"), simulate=16000 if QUICK else 400000, depth=2).prints
    jobs = [(c, i) for i, c in enumerate(prints)]
    for (c, i), res in zip(jobs, pool_map(wrapped, jobs)):
        check.validated += 1
        check.tally("operations", c["kind"] + " " + c["op"])
        check.tally("outcomes", c["gives"]["is"])
        if res:
            check.violation(res, dict(case=c, index=i))
    check.sample(prints[0])
    check.sample(prints[-1])
