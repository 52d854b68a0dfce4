"""G06: arcs as Bezier curves (ArcPieces.tla)."""
import random
from math import atan2, ceil, hypot, pi, tau

import common
from common import QUICK, attempt, close, pool_map
from geo import arc, frac, near, on_ellipse, sweep_of
from c_walk import scaled_seg

ONE = """SPECIFICATION OneSpec
CONSTANTS Size=1
INVARIANTS InvUnit InvEqual OneEmit
"""
PATH = """SPECIFICATION PathSpec
CONSTANTS Size={size}
INVARIANTS InvOrder InvConnected PathEmit
"""


def bound(kind, eta):
    return (1.5e-4 * eta ** 6 if kind == "cubic" else eta * eta / 45) + 1e-6


def pieces_ok(a, kind, curves, ends):
    """The pieces of arc record a (of n equal turns): what is wrong. ends: known ends or None."""
    from svgio.path import CubicBezier, QuadraticBezier
    n = len(curves)
    cls = CubicBezier if kind == "cubic" else QuadraticBezier
    sweep = sweep_of(a)
    eta = abs(sweep) / n
    c, u, v = a["c"], a["u"], a["v"]
    det = u[0] * v[1] - u[1] * v[0]
    th0 = atan2(a["a0"][1], a["a0"][0])
    way = 1 if sweep > 0 else -1
    for k, curve in enumerate(curves):
        if type(curve) is not cls:
            return "piece %d is a %s" % (k, type(curve).__name__)
        for j, p in ((k, curve.start), (k + 1, curve.end)):
            want = on_ellipse(a, j / n)
            if not near(p, want, 1e-6):
                return "joint %d of %d is %r instead of %r" % (j, n, p, want)
        if k and tuple(curve.start) != tuple(curves[k - 1].end):
            return "the pieces are not connected: %r %r" % (curves[k - 1].end, curve.start)
        if eta > pi / 2 + 1e-9:
            continue
        last = 0
        for i in range(1, 9):
            p = curve.point(i / 9)
            x, y = p.x - c[0], p.y - c[1]
            X, Y = (x * v[1] - y * v[0]) / det, (u[0] * y - u[1] * x) / det
            if abs(hypot(X, Y) - 1) > bound(kind, eta):
                return "piece %d of %d (of %.3f) is %.2g off the ellipse" % (k, n, eta, abs(hypot(X, Y) - 1))
            th = ((atan2(Y, X) - th0) * way - k * eta + pi) % tau - pi
            if not (last < th < eta):
                return "piece %d of %d does not follow the arc: %r after %r (of %r)" % (k, n, th, last, eta)
            last = th
    return None


def transformed(a, f):
    b = dict(a)
    for k in "cuv":
        b[k] = [x * f for x in a[k]]
    return b


def one_arc(case, rng, f):
    a = transformed(case["arc"], f)
    j = [tuple(f * x for x in frac(p, p[2])) for p in case["joints"]]
    seg = arc(a, (j[0], j[-1]))
    before = repr(seg)
    sweep = abs(sweep_of(a))
    per = case["per"][0]
    n = a["n"] * per
    for kind, make in (("cubic", seg.as_cubic_curves), ("quad", seg.as_quad_curves)):
        curves = list(make(n))
        if len(curves) != n:
            return "%s: %d pieces instead of %d" % (kind, len(curves), n)
        r = pieces_ok(a, kind, curves, j)
        if r:
            return "%s: %s" % (kind, r)
        for k, p in enumerate(j):     # exact joints
            q = curves[0].start if k == 0 else curves[k * per - 1].end
            if not near(q, p, 1e-6):
                return "%s: joint %d/%d is %r instead of %r" % (kind, k, a["n"], q, p)
        m = rng.choice([1, 2, 3, 5, 8, 13, 40])
        curves = list(make(m))
        if len(curves) != m:
            return "%s: %d pieces instead of %d" % (kind, len(curves), m)
        curves2 = list(make())
        x = sweep / (tau / 12)
        if not ceil(x - 1e-6) <= len(curves2) <= ceil(x + 1e-6):
            return "%s: %d pieces by default for %r turns" % (kind, len(curves2), sweep / tau)
        r = pieces_ok(a, kind, curves, j) or pieces_ok(a, kind, curves2, j)
        if r:
            return "%s: %s" % (kind, r)
        if not (near(curves[0].start, seg.start, 1e-12) and near(curves[-1].end, seg.end, 1e-12)):
            return "%s: the curves run from %r to %r" % (kind, curves[0].start, curves[-1].end)
        if repr(seg) != before:
            return "%s: the arc was changed" % kind
    return None


def shape(s):
    return (type(s).__name__, getattr(s, "relative", None)) + tuple(
        None if p is None else (p.x, p.y) for p in (getattr(s, k, None) for k in ("start", "control", "control1", "control2", "end")))


def arcs_in_path(case, rng, f):
    from svgio.path import Path, Arc
    for kind in ("cubic", "quad"):
        path = Path()
        for s in case["segs"]:
            seg = scaled_seg(s, f)
            seg.relative = rng.random() < 0.5
            path.append(seg)
        if rng.random() < 0.5:
            path.length()
        before = [shape(s) for s in path]
        error = 0.25 * case["per"][1] / case["per"][0] * 1.0001
        got = (path.approximate_arcs_with_cubics if kind == "cubic" else path.approximate_arcs_with_quads)(error=error)
        if len(path) != len(case["list"]):
            return "%s: %d segments instead of %d" % (kind, len(path), len(case["list"]))
        k = 0
        while k < len(path):
            x = case["list"][k]
            if x["piece"] == 0:
                if shape(path[k]) != before[x["seg"] - 1]:
                    return "%s: segment %d was %r and is %r" % (kind, x["seg"], before[x["seg"] - 1], shape(path[k]))
                k += 1
                continue
            a = transformed(case["segs"][x["seg"] - 1]["arc"], f)
            curves = [path[k + i] for i in range(x["of"])]
            for i in range(x["of"]):
                for p, w in ((curves[i].start, case["list"][k + i]["s"]), (curves[i].end, case["list"][k + i]["e"])):
                    if w and not near(p, (w[0] * f, w[1] * f), 1e-6):
                        return "%s: joint %r instead of %r" % (kind, p, w)
            r = pieces_ok(a, kind, curves, None)
            if r:
                return "%s in path: %s" % (kind, r)
            k += x["of"]
        total = sum(s.length() for s in path)
        if not close(path.length(), total, 1e-9):
            return "%s: the length is %r instead of %r" % (kind, path.length(), total)
    return None


def straight(rng):
    """An arc with a zero radius is straight and stays so."""
    from svgio.path import Arc, Path, CubicBezier, QuadraticBezier
    s, e = (rng.randint(-9, 9), rng.randint(-9, 9)), (rng.randint(10, 19), rng.randint(-9, 9))
    seg = Arc(s, 0, rng.choice([0, 5]), rng.choice([0, 30]), rng.random() < 0.5, rng.random() < 0.5, e)
    m = rng.choice([1, 2, 3, 7])
    p = Path("M%d,%dL%d,%dA0,3 0 0 1 %d,%dL9,9" % (1, 1, s[0], s[1], e[0], e[1]))
    for make, cls, approx in ((seg.as_cubic_curves, CubicBezier, p.approximate_arcs_with_cubics), (seg.as_quad_curves, QuadraticBezier, p.approximate_arcs_with_quads)):
        curves = list(make(m))
        if len(curves) != m:
            return "straight: %d pieces instead of %d" % (len(curves), m)
        for k, c in enumerate(curves):
            for i in (0, 1, 2, 3, 4):
                t = (k + i / 4) / m
                if type(c) is not cls or not near(c.point(i / 4), (s[0] + t * (e[0] - s[0]), s[1] + t * (e[1] - s[1])), 1e-9):
                    return "straight: point %r of %r is %r" % (i / 4, c, c.point(i / 4))
        approx()
        if len(p) < 4 or not near(p[-1].start, e, 1e-9) or not near(p[2].start, s, 1e-9):
            return "straight arc in a path: %s" % p.d()
    return None


def wrapped(job):
    case, index = job
    rng = random.Random(index)
    f = [1.0, 0.01, 1e3][index % 3]
    if case is None:
        r = attempt(straight, rng)
    else:
        r = attempt(one_arc if "joints" in case else arcs_in_path, case, rng, f)
    return r[1] if r[0] == "ok" else "raised %s %s" % r[1:]


def check_G06(check):
    k = 1 if QUICK else 10
    prints = check.mc("ArcPieces", ONE, simulate=1500 * k, depth=8).prints
    for size, n in ((2, 150), (3, 400), (5, 400)):
        prints += check.mc("ArcPieces", PATH.format(size=size), simulate=n * k, depth=30).prints
    jobs = [(c, i) for i, c in enumerate(prints)] + [(None, i) for i in range(100)]
    for (c, i), res in zip(jobs, pool_map(wrapped, jobs)):
        check.validated += 1
        check.tally("cases", "straight" if c is None else "arc" if "joints" in c else "path")
        if res:
            check.violation("%s: %s" % (c and (c.get("arc") or [(s["kind"], s["net"], s["arc"]) for s in c["segs"]]), res), dict(case=c, index=i))
    check.sample(prints[0])
    check.sample(prints[-1])
