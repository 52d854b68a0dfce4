"""G09: point arithmetic (PointOps.tla)."""
import random
from copy import copy
from math import atan2, sqrt, tau

import common
from common import QUICK, attempt, close, pool_map
from c_matrix import exact, number

CFG = """SPECIFICATION Spec
CONSTANTS Steps={steps}
INVARIANTS InvLaws InvPower InvPolar Emit
"""


def val(v):
    return (v[0] / v[2], v[1] / v[2])


def rnum(k):
    return k[0] / k[1] if k[1] != 1 else k[0]


def at(p, w, tol=1e-9):
    return close(p[0], w[0], tol) and close(p[1], w[1], tol) and close(p.x, w[0], tol) and close(p.y, w[1], tol)


def operand(kind, v, p, q):
    from svgio.basic import Point
    if kind == "other":
        return q
    if kind == "self":
        return p
    return dict(point=lambda: Point(*v), pair=lambda: tuple(v), list=lambda: list(v), complex=lambda: complex(*v))[kind]()


def operate(op, p, x):
    if op == "add":
        return p + x
    if op == "radd":
        return x + p
    if op == "sub":
        return p - x
    if op == "rsub":
        return x - p
    if op == "mul":
        return p * x
    if op == "rmul":
        return x * p
    if op == "iadd":
        p += x
    if op == "isub":
        p -= x
    if op == "imul":
        p *= x
    return p


def frozen(x):
    return tuple(x) if hasattr(x, "__getitem__") else x


def history(job):
    from svgio.basic import Point, Matrix, Angle
    hist, index = job
    rng = random.Random(index)
    p, q = Point(0, 0), Point(0, 0)
    for n, h in enumerate(hist):
        op, kind = h["op"], h["kind"]
        what = "step %d %s %s on %r, %r" % (n, op, kind, p, q)
        old = p
        before = tuple(p)
        inplace = op in ("iadd", "isub", "imul", "move_towards", "polar_to", "matrix_imul", "matrix_transform")
        x = None
        if op == "set":
            v = val(h["u"])
            if kind == "text":
                a, b = number(v[0], rng), number(v[1], rng)
                p = Point(a + (rng.choice([",", " ", ", ", " , "]) if b[0] != "-" or rng.random() < 0.7 else "") + b)
            elif kind == "items":
                p[0], p[1] = v
            elif kind == "copy":
                p = copy(Point(*v))
            else:
                p = Point(operand(kind, v, p, q))
        elif op == "swap":
            p, q = q, p
        elif op == "reflect":
            x = operand(kind, tuple(q), p, q)
            was = frozen(x)
            p = p.reflected_across(x)
            if frozen(x) != was or p is x:
                return "%s: the centre changed from %r to %r" % (what, was, x)
        elif op in ("towards", "move_towards"):
            x = operand(kind, tuple(q), p, q)
            if op == "towards":
                p = Point.towards(p, x, rnum(h["k"]))
            elif h["k"] == [1, 1] and rng.random() < 0.5:
                p.move_towards(x)
            else:
                p.move_towards(x, rnum(h["k"]))
        elif op in ("polar", "polar_to"):
            a = atan2(h["u"][1], h["u"][0]) + rng.choice([0, tau, -tau])
            if rng.random() < 0.3:
                a = Angle.radians(a)
            if op == "polar":
                p = Point.polar(p if rng.random() < 0.5 else tuple(p), a, rnum(h["k"]))
            else:
                p.polar_to(a, rnum(h["k"]))
        elif op.startswith("matrix"):
            e = exact(h["u"])
            x = Matrix(*e) if op != "matrix_text" else "matrix(%r,%r,%r,%r,%r,%r)" % tuple(e)
            if op == "matrix_imul":
                p *= x
            elif op == "matrix_transform":
                p.matrix_transform(x)
            else:
                p = p * x
        elif op == "pow":
            n = h["k"][0]
            p = p ** (n if rng.random() < 0.7 else float(n))
        elif op == "conjugate":
            p = p.conjugate()
        else:
            x = rnum(h["k"]) if kind == "number" else operand(kind, val(h["u"]), p, q)
            was = frozen(x)
            new = operate(op, p, x)
            if x is not p and frozen(x) != was:
                return "%s: the operand changed from %r to %r" % (what, was, x)
            p = new
        if x is not None and x is not p and x is not q and op in ("reflect", "towards", "move_towards") and frozen(x) != frozen(operand(kind, tuple(q), p, q)):
            return "%s: the operand changed to %r" % (what, x)
        if inplace and p is not old:
            return what + ": not in place"
        if not inplace and op not in ("swap", "set") and (tuple(old) != before or p is old):
            return "%s: the operand changed to %r" % (what, old)
        if not isinstance(p, Point) or not at(p, val(h["p"])):
            return "%s: %r instead of %r" % (what, p, val(h["p"]))
        if not at(q, val(h["q"])):
            return "%s: the other point became %r instead of %r" % (what, q, val(h["q"]))
        r = measured(p, q, h, rng)
        if r:
            return "%s: %s" % (what, r)
        p, q = Point(*val(h["p"])), Point(*val(h["q"]))     # no accumulated rounding
    return None


def measured(p, q, h, rng):
    from svgio.basic import Point
    d = h["dist"]
    dist = sqrt(d["n2"]) / d["r"]
    a, b = val(h["p"]), val(h["q"])
    p, q = Point(*a), Point(*b)
    other = lambda v: rng.choice([Point, lambda z: z, list])(v)
    for got in (p.distance_to(other(b)), q.distance_to(p), Point.distance(other(a), other(b)), abs(q - p), Point.distance(q, p)):
        if not close(got, dist, 1e-9):
            return "distance %r instead of %r" % (got, dist)
    if dist > 0:
        th = atan2(d["y"], d["x"])
        for got in (p.angle_to(other(b)), Point.angle(other(a), other(b))):
            if not close((float(got) - th + 1) % tau, 1, 1e-9):
                return "angle %r instead of %r" % (got, th)
        for there in (Point.polar(p, p.angle_to(q), p.distance_to(q)), Point(p).polar_to(Point.angle(p, q), Point.distance(p, q)),
                      Point(p).move_towards(q) or Point(q)):
            if not at(there, b, 1e-7):
                return "moving by the measured angle and distance arrives at %r instead of %r" % (there, b)
    same = h["p"] == h["q"]
    for x in (q, b, list(b), complex(*b), "%r,%r" % b):
        if (p == x) is not same or (p != x) is same:
            return "%r == %r is %r" % (p, x, p == x)
    if p == None or not p != None:  # noqa
        return "a point equals None"
    if same and hash(p) != hash(q):
        return "equal points have different hashes"
    if complex(p) != complex(*a) or p.real != a[0] or p.imag != a[1] or len(p) != 2 or list(p) != list(a) or tuple(p) != a:
        return "conversions of %r" % p
    if not close(abs(p), (a[0] ** 2 + a[1] ** 2) ** 0.5, 1e-9):
        return "abs(%r) is %r" % (p, abs(p))
    if not close((float(p.argz()) - atan2(a[1], a[0]) + 1) % tau, 1, 1e-9):
        return "argz of %r is %r" % (p, p.argz())
    for i in (2, -3):
        try:
            p[i]
            return "item %d of a point" % i
        except IndexError:
            pass
    if not at(eval(repr(p), {"Point": Point}), a, 1e-9) or not at(Point(str(p)), a, 1e-9):
        return "%r reads back as %r" % (p, Point(str(p)))
    return None


def wrapped(job):
    r = attempt(history, job)
    return r[1] if r[0] == "ok" else "raised %s %s" % r[1:]


def check_G09(check):
    prints = []
    for steps, n in ((2, 3000), (6, 1500)):
        prints += check.mc("PointOps", CFG.format(steps=steps), simulate=n if QUICK else n * 25, depth=steps + 25).prints
    jobs = [(c, i) for i, c in enumerate(prints)]
    for (c, i), res in zip(jobs, pool_map(wrapped, jobs)):
        check.validated += 1
        for h in c:
            check.tally("operations", h["op"] + " " + h["kind"])
        if res:
            check.violation(res, dict(case=c, index=i))
    check.sample(prints[0])
