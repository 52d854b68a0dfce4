"""V05: angles (Angles.tla)."""
import random
from math import tau

import common
from common import QUICK, attempt, pool_map

CFG = """SPECIFICATION Spec
CONSTANTS Steps = %d
INVARIANTS InvNormal InvPositive InvOrthogonal InvUnits Emit
"""
TURN = 360000
PER = {"deg": 1000, "": 1000, "grad": 900, "turn": TURN, "%": 3600}


def amount(n, unit):
    return n / TURN * tau if unit == "rad" else n / PER[unit]


def spelled(x, unit, rng):
    t = rng.choice([repr(x), "%.17g" % x, "%.16e" % x])
    if x == int(x) and rng.random() < 0.5:
        t = str(int(x))
    if x >= 0 and rng.random() < 0.2:
        t = "+" + t
    return t + rng.choice([unit, unit, unit.upper(), unit.title()])


def build(n, unit, rng):
    from svgio import Angle
    x = amount(n, unit)
    if rng.random() < 0.5 or unit == "%":
        return Angle.parse(spelled(x, unit, rng))
    if unit == "":
        return Angle(n / TURN * tau)
    if x == int(x) and rng.random() < 0.5:
        x = int(x)
    return {"deg": Angle.degrees, "grad": Angle.gradians, "rad": Angle.radians, "turn": Angle.turns}[unit](x)


def read(angle, unit):
    """The amount in the unit, as the angle says it."""
    if unit in ("deg", ""):
        return angle.as_degrees
    return {"grad": lambda: angle.as_gradians, "rad": lambda: angle.as_radians, "turn": lambda: angle.as_turns, "%": lambda: angle.as_turns * 100.0}[unit]()


def carry(angle, unit, rng):
    from svgio import Angle
    x = float(read(angle, unit))
    if rng.random() < 0.5 or unit == "%":
        return Angle.parse(spelled(x, unit, rng))
    return {"deg": Angle.degrees, "": Angle.degrees, "grad": Angle.gradians, "rad": Angle.radians, "turn": Angle.turns}[unit](x)


def near(x, n, unit):
    want = amount(n, unit)
    return isinstance(x, float) and abs(x - want) <= 1e-9 * max(1.0, abs(want))


def judge(a, c, rng):
    from svgio import Angle
    n = c["n"]
    for u in ("deg", "grad", "rad", "turn"):
        if not near(read(a, u), n, u):
            return "reads as %r %s" % (read(a, u), u)
    if not near(float(a), n, "rad"):
        return "is the float %r" % float(a)
    b = build(c["other"], rng.choice(list(PER)), rng)
    for x, y in ((a, b), (b, a)):
        if (x == y) is not c["same"] or (x != y) is c["same"]:
            return "compares with %r as equal %s, unequal %s" % (b, x == y, x != y)
    v = a.normalized()
    if not isinstance(v, Angle) or not -1e-9 <= float(v) <= tau * (1 + 1e-12) or v != a or not a == v:
        return "is normalized to %r" % v
    if min(abs(float(v) - w) for w in (c["normal"] / TURN * tau, c["normal"] / TURN * tau + (tau if c["normal"] == 0 else 0))) > 1e-9:
        return "is normalized to %r" % v
    p = a.as_positive_degrees
    # just below zero is allowed to be the whole turn
    if p < 0 or min(abs(p - c["positive"] / 1000), abs(p - c["positive"] / 1000 - 360) if c["positive"] == 0 else 1) > 1e-7:
        return "has the positive degrees %r" % p
    if a.is_orthogonal() is not c["orthogonal"]:
        return "orthogonal: %s" % a.is_orthogonal()
    e = eval(repr(a), {"Angle": Angle})
    if abs(float(e) - float(a)) > 1e-9:
        return "is represented as %r" % a
    return None


def one(job):
    cases, seed = job
    rng = random.Random(seed)
    a, prev = None, 0
    for i, c in enumerate(cases):
        if c["first"] or a is None:
            a = build(c["n"], c["unit"], rng)
        else:
            from svgio import Angle
            a = carry(Angle(a + (c["n"] - prev) / TURN * tau), c["unit"], rng)
        prev = c["n"]
        bad = judge(a, c, rng)
        if bad:
            return "the angle of %d/360000 turns, last given in %r, %s" % (c["n"], c["unit"], bad)
    return None


def wrapped(job):
    r = attempt(one, job)
    return r[1] if r[0] == "ok" else "raised %s %s" % r[1:]


def check_V05(check):
    prints = check.mc("Angles", CFG % 4, simulate=8000 if QUICK else 200000, depth=5).prints
    jobs, cur = [], []
    for c in prints:
        if c["first"] and cur:
            jobs.append((cur, len(jobs)))
            cur = []
        cur.append(c)
    jobs.append((cur, len(jobs)))
    for (cs, i), res in zip(jobs, pool_map(wrapped, jobs)):
        check.validated += 1
        for c in cs:
            check.tally("units", c["unit"] or "number")
        check.count("orthogonal", sum(c["orthogonal"] for c in cs))
        check.count("equal", sum(c["same"] for c in cs))
        if res:
            check.violation(res, dict(case=cs, index=i))
    check.sample(jobs[0][0])
