"""G03 bounding boxes and G04 lengths (Refine.tla for Bezier curves, ArcBox.tla for arcs)."""
import random
from math import atan2, cos, hypot, pi, sin, sqrt, tau

import common
from common import QUICK, attempt, close, pool_map
from geo import angle_of, arc, bezier, frac, near, on_ellipse, sweep_of

CFG = """SPECIFICATION Spec
CONSTANT Levels <- {levels}
INVARIANTS InvExtrema InvBounds Emit
PROPERTIES PropNested
"""
ACFG = """SPECIFICATION Spec
INVARIANTS InvPassed InvTurns InvWhole Emit
"""


def cases(check, n):
    r = check.mc("Refine", CFG.format(levels="QuickLevels" if QUICK else "DeepLevels"), simulate=n, depth=9)
    a = check.mc("ArcBox", ACFG, simulate=n, depth=8)
    for c in r.prints:
        check.tally("curves", "%d points" % len(c["net"]))
        check.tally("exact", (c["exact"] or ["bounds only"])[0])
    for c in a.prints:
        check.tally("arc extrema passed", sum(c["hit"]))
    check.sample({k: r.prints[0][k] for k in ("net", "inner", "outer", "scale", "lower", "upper")})
    check.sample(a.prints[0])
    return r.prints + a.prints


def scale_of(index):
    return [1.0, 1.0, 0.125, 100.0, 1e4, 1e-3, 2.0 ** -20, 2.0 ** 24][index % 8]


def segment(case, f, index):
    if "net" in case:
        return bezier([(x * f, y * f) for x, y in case["net"]], index % 2 == 0)
    return arc(scaled_arc(case["arc"], f), (frac(case["pts"][0], case["pts"][0][2] / f), frac(case["pts"][-1], case["pts"][-1][2] / f)))


def scaled_arc(a, f):
    b = dict(a)
    for k in "cuv":
        b[k] = [x * f for x in a[k]]
    return b


# ---- boxes ---------------------------------------------------------------------------------------
def true_box(case, f):
    """(low bounds, high bounds) of the box, each (xmin, ymin, xmax, ymax); equal where it is known."""
    if "net" in case:
        if case["ext"]:
            b = [f * m([v / d for v, d in case["ext"][i]]) for m in (min, max) for i in (0, 1)]
            return b, b
        s = case["scale"] / f
        i, o = [x / s for x in case["inner"]], [x / s for x in case["outer"]]
        return [o[0], o[1], i[2], i[3]], [i[0], i[1], o[2], o[3]]
    ends = [frac(p, p[2] / f) for p in (case["pts"][0], case["pts"][-1])]
    b = [min(e[0] for e in ends), min(e[1] for e in ends), max(e[0] for e in ends), max(e[1] for e in ends)]
    c, h = case["arc"]["c"], case["h2"]
    for q, (side, i, sg) in enumerate([(2, 0, 1), (3, 1, 1), (0, 0, -1), (1, 1, -1)]):
        if case["hit"][q]:
            b[side] = f * (c[i] + sg * sqrt(h[i]))
    return b, b


def box_diff(got, lo, hi, f, what):
    tol = 1e-7 * max([f] + [abs(x) for x in lo + hi])
    if got is None or len(got) != 4:
        return "%s: bbox is %r" % (what, got)
    for g, a, b, name in zip(got, lo, hi, ("xmin", "ymin", "xmax", "ymax")):
        if not (a - tol <= g <= b + tol):
            return "%s: %s is %r, should be in %r..%r" % (what, name, g, a, b)
    return None


def box_one(job):
    from svgio.path import Move, Path
    group, index = job
    rng = random.Random(index)
    f = scale_of(index)
    lows, highs = [], []
    p = Path()
    for case in group:
        seg = segment(case, f, index)
        lo, hi = true_box(case, f)
        r = box_diff(seg.bbox(), lo, hi, f, type(seg).__name__)
        if r:
            return r
        if "net" in case and len(case["net"]) < 4:
            # the same curve as one of the next degree
            n = len(case["net"])
            up = bezier([(x * f / n, y * f / n) for x, y in case["higher"]])
            r = box_diff(up.bbox(), lo, hi, f, "the same curve as " + type(up).__name__)
            if r:
                return r
        lows.append(lo)
        highs.append(hi)
        p.append(Move(None, seg.start))
        p.append(segment(case, f, 1))
        if rng.random() < 0.5:
            p.append(Move(None, (rng.uniform(-1e3, 1e3), rng.uniform(-1e3, 1e3))))
    # subpaths of a path: movetos do not count
    k = 0
    for s in p.as_subpaths():
        if len(s) == 1:
            b = s.bbox()
            if b is not None:
                return "a subpath of a moveto alone has the box %r" % (b,)
            continue
        r = box_diff(s.bbox(), lows[k], highs[k], f, "subpath of " + type(s[1]).__name__)
        if r:
            return r
        k += 1
    # a point that is drawn
    q = Path(Move(None, p[0].end))
    q.closed()
    r = box_diff(q.subpath(0).bbox(), [*p[0].end] * 2, [*p[0].end] * 2, f, "subpath %s" % q)
    if r:
        return r
    # several segments in one subpath: the union; straight connections are between points of the curves
    q = Path(Move(None, p[0].end))
    for case in group:
        seg = segment(case, f, 1)
        if q.current_point != seg.start:
            q.line(seg.start)
        q.append(seg)
    if rng.random() < 0.5:
        q.closed()
    lo = [m(x[i] for x in lows) for i, m in enumerate((min, min, max, max))]
    hi = [m(x[i] for x in highs) for i, m in enumerate((min, min, max, max))]
    return box_diff(q.subpath(0).bbox(), lo, hi, f, "subpath %s" % "".join(type(s).__name__[0] for s in q))


def wrapped_box(job):
    r = attempt(box_one, job)
    return r[1] if r[0] == "ok" else "raised %s %s" % r[1:]


def brief(case):
    return case.get("net") or {k: v for k, v in case["arc"].items()}


def check_G03(check):
    cs = cases(check, 1500 if QUICK else 15000)
    rng = random.Random(common.SEED)
    rng.shuffle(cs)
    groups = []
    while cs:
        n = rng.choice([1, 1, 2, 3])
        groups.append(cs[:n])
        cs = cs[n:]
    jobs = [(g, i) for i, g in enumerate(groups)]
    for (g, i), res in zip(jobs, pool_map(wrapped_box, jobs)):
        check.validated += 1
        if res:
            check.violation("%s: %s" % ([brief(c) for c in g], res), dict(case=g, index=i))


# ---- lengths ---------------------------------------------------------------------------------------
def total_variation(vals):
    return sum(abs(a - b) for a, b in zip(vals, vals[1:]))


def arc_bounds(a):
    """Inscribed and circumscribed polygons of the arc, finely divided."""
    n = 96 * a["n"]
    th0, sw = angle_of(a["a0"]), sweep_of(a)
    u, v = a["u"], a["v"]
    w = abs(sw) / n / 2
    lo = hi = 0.0
    for k in range(n):
        m = th0 + sw * (k + 0.5) / n
        x, y = -u[0] * sin(m) + v[0] * cos(m), -u[1] * sin(m) + v[1] * cos(m)
        lo += 2 * sin(w) * hypot(x, y)
        # the two tangents from the ends of the piece meet above its middle
        t0, t1 = m - w, m + w
        for t in (t0, t1):
            hi += sin(w) / cos(w) * hypot(-u[0] * sin(t) + v[0] * cos(t), -u[1] * sin(t) + v[1] * cos(t))
    return lo, hi


def true_length(case, f):
    """Lower and upper bound of the length."""
    if "net" in case:
        n = case["net"]
        if len(n) == 2:
            d = f * hypot(n[1][0] - n[0][0], n[1][1] - n[0][1])
            return d, d
        if case["exact"]:
            kind, vals, k = case["exact"]
            v = [a / b for a, b in vals]
            d = f * k * (total_variation(v) if kind == "line" else v[0])
            return d, d
        s = case["scale"] / f
        return case["lower"] / s, (case["upper"]) / s
    a = case["arc"]
    if a["u"][0] ** 2 + a["u"][1] ** 2 == a["v"][0] ** 2 + a["v"][1] ** 2:
        d = f * hypot(*a["u"]) * abs(sweep_of(a))
        return d, d
    lo, hi = arc_bounds(a)
    return lo * f, hi * f


def in_bounds(got, lo, hi, what):
    tol = 2e-6 * max(abs(lo), abs(hi)) + 1e-9
    if not (isinstance(got, (int, float)) and lo - tol <= got <= hi + tol):
        return "%s: length %r, should be in %r..%r" % (what, got, lo, hi)
    return None


def same(a, b, what, tol=4e-6):
    if abs(a - b) > tol * max(abs(a), abs(b)) + 1e-9:
        return "%s: %r and %r" % (what, a, b)
    return None


def halves(case, f):
    if "net" in case:
        s = 2 ** (len(case["net"]) - 1) / f
        return [bezier([(x / s, y / s) for x, y in h]) for h in case["halves"]]
    out = []
    a = scaled_arc(case["arc"], f)
    for k in range(a["n"]):
        b = dict(a, a0=case["dirs"][k], n=1)
        out.append(arc(b, tuple(frac(case["pts"][j], case["pts"][j][2] / f) for j in (k, k + 1))))
    return out


def len_one(job):
    from copy import copy
    from svgio import Matrix
    from svgio.path import CubicBezier, Line, Move, Path
    group, index = job
    rng = random.Random(index)
    f = scale_of(index)
    segs, lens, los, his = [], [], [], []
    for case in group:
        seg = segment(case, f, index)
        name = type(seg).__name__
        n = seg.length()
        lo, hi = true_length(case, f)
        r = in_bounds(n, lo, hi, name)
        if r:
            return r
        if index % 4 == 0:
            # without scipy by chords, up to the error asked for in each
            err = 1e-6 * f
            with common.bare():
                m = copy(seg).length(error=err)
            if len(case.get("net") or [0] * 4) < 4 or type(seg).__name__ == "Arc" and lo == hi:
                r = same(m, n, "%s: length with and without scipy" % name, 1e-12)
            elif not (n * (1 - 1e-3) - 100 * err <= m <= n * (1 + 1e-6) + 1e-9):
                r = "%s: length %r without scipy, asking for %r, should be %r" % (name, m, err, n)
            if r:
                return r
        parts = [h.length() for h in halves(case, f)]
        r = same(sum(parts), n, "%s: length of the parts and of the whole" % name)
        if not r and "net" in case and len(case["net"]) == 3:
            s = 3 / f
            r = same(CubicBezier(*[(x / s, y / s) for x, y in case["higher"]]).length(), n, "the same curve as a cubic and as a quadratic")
        back = copy(seg)
        back.reverse()
        r = r or same(back.length(), n, "%s backwards" % name)
        k = rng.choice([0.5, 3.0, -2.0])
        moved = seg * Matrix(k, 0, 0, k, 7 * f, -3 * f)
        r = r or same(moved.length(), abs(k) * n, "%s scaled by %r" % (name, k))
        turned = seg * Matrix(0.6, 0.8, -0.8, 0.6, 5 * f, 2 * f) * (Matrix(1, 0, 0, -1, 0, 0) if rng.random() < 0.5 else Matrix())
        r = r or same(turned.length(), n, "%s turned or mirrored" % name)
        m = Move(seg.start, seg.end)
        if not r and m.length() != 0:
            r = "a moveto has the length %r" % m.length()
        if r:
            return r
        segs.append(seg)
        lens.append(n)
        los.append(lo)
        his.append(hi)
    # a path of them, jumping from one to the next
    p = Path()
    for s in segs:
        p.append(Move(None, s.start))
        p.append(copy(s) if len(s) != 2 else Line(s.start, s.end))
    r = in_bounds(p.length(), sum(los), sum(his), "path")
    for k, s in enumerate(p.as_subpaths()):
        got = s.length() if hasattr(s, "length") else lens[k]
        r = r or same(got, lens[k], "length of a subpath and of its segment")
        r = r or same(Path(s).length(), lens[k], "length of a subpath as a path and of its segment")
    return r or same(p.length(), sum(lens), "length of a path and of its segments")


def wrapped_len(job):
    r = attempt(len_one, job)
    return r[1] if r[0] == "ok" else "raised %s %s" % r[1:]


UNIFORM = """SPECIFICATION Spec
CONSTANTS Sizes={%s}
INVARIANTS InvForward Emit
"""


def uniform_one(job):
    from svgio.path import Move, Path, QuadraticBezier
    case, index = job
    f = scale_of(index)
    net = [(x * f, y * f) for x, y in case["net"]]
    bow = (case["bow"][0] / case["bow"][1]) ** 2 / (3 * case["far"])
    true = f * (case["len"][0] / case["len"][1] + bow)
    slack = f * bow * 2 * case["slack"] / case["far"]
    seg = bezier(net, index % 2 == 0)
    # the closed form loses digits with the curvature; where there is hardly any it is not used
    bend = hypot(*[a - 2 * b + c for a, b, c in zip(*case["net"])]) / (2 * hypot(*[b - a for a, b in zip(*case["net"][:2])]))
    tol = slack + true * (1e-11 if bend < 0.9e-6 else 2e-6)
    for what, got in (("quadratic", seg.length()), ("path of a quadratic", Path(Move(net[0]), QuadraticBezier(*net)).length())):
        if not abs(got - true) <= tol:
            return "%s: length %r instead of %r" % (what, got, true)
    return None


def wrapped_uniform(job):
    r = attempt(uniform_one, job)
    return r[1] if r[0] == "ok" else "raised %s %s" % r[1:]


MAKE = """SPECIFICATION SpecSeg
CONSTANTS Draws=1 Inits="partial"
INVARIANTS InvHeld EmitSeg
"""


def partial_one(job):
    """Movetos, lines and closepaths, some without their start or end."""
    from c_pathedit import mkseg
    g = job[0]["g"]
    want = 0 if g["k"] == "M" or not g["s"] or not g["e"] else hypot(g["s"][0] - g["e"][0], g["s"][1] - g["e"][1])
    seg = mkseg(g)
    return None if close(seg.length(), want) else "%r: length %r instead of %r" % (seg, seg.length(), want)


def wrapped_partial(job):
    r = attempt(partial_one, job)
    return r[1] if r[0] == "ok" else "raised %s %s" % r[1:]


def check_G04(check):
    r = check.mc("SegMake", MAKE)
    jobs = [(c, i) for i, c in enumerate(r.prints) if c["q"]["k"] in "MLZ"]
    for (c, i), res in zip(jobs, pool_map(wrapped_partial, jobs)):
        check.validated += 1
        check.count("lines with and without their ends")
        if res:
            check.violation(res, dict(case=c, index=i))
    r = check.mc("Uniform", UNIFORM % ("40, 200, 700, 5000, 700000, 3000000" if QUICK else "30, 100, 300, 1000, 10000, 100000, 300000, 1000000, 2000000, 3000000"))
    jobs = [(c, i) for i, c in enumerate(r.prints)]
    for (c, i), res in zip(jobs, pool_map(wrapped_uniform, jobs)):
        check.validated += 1
        check.count("nearly uniform")
        if res:
            check.violation("%s: %s" % (c["net"], res), dict(case=c, index=i))
    cs = cases(check, 1500 if QUICK else 15000)
    rng = random.Random(common.SEED)
    rng.shuffle(cs)
    groups = []
    while cs:
        n = rng.choice([1, 1, 2, 3])
        groups.append(cs[:n])
        cs = cs[n:]
    jobs = [(g, i) for i, g in enumerate(groups)]
    for (g, i), res in zip(jobs, pool_map(wrapped_len, jobs)):
        check.validated += 1
        if res:
            check.violation("%s: %s" % ([brief(c) for c in g], res), dict(case=g, index=i))
