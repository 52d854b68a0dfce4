"""G10: the ways of giving an arc; G11: what can be asked about one (ArcWays.tla)."""
import random
from math import atan2, degrees, hypot, remainder, tan, tau

import common
from common import QUICK, attempt, close, pool_map
from geo import frac, near, sweep_of

CFG = """SPECIFICATION WaySpec
INVARIANTS InvRound InvMinor EmitWays
"""


def ways(case, f, rng):
    """Every way of the case with its arguments, and whether its sweep is left to the sense of turning."""
    from svgio.path import Arc, Angle
    from svgio.basic import Point
    a = case["arc"]
    c = frac(a["c"], 1 / f)
    pts = [frac(p, p[2] / f) for p in case["pts"]]
    s, e = pts[0], pts[-1]
    rx, ry = f * hypot(*a["u"]), f * hypot(*a["v"])
    rot = atan2(a["u"][1], a["u"][0])
    prx = (c[0] + f * a["u"][0], c[1] + f * a["u"][1])
    pry = (c[0] + f * a["v"][0], c[1] + f * a["v"][1])
    sweep = sweep_of(a)
    if rng.random() < 0.3:
        from svgio import Angle
        sweep = Angle(sweep)
    ccw = a["dir"] < 0
    half = case["half"]
    P = rng.choice([lambda p: p, lambda p: Point(*p), lambda p: complex(*p)])
    s_, e_, c_, prx_, pry_ = (P(p) for p in (s, e, c, prx, pry))
    ends = dict(start=s_, end=e_)
    axes = dict(center=c_, rx=rx, ry=ry)
    if rot or rng.random() < 0.5:
        axes["rotation"] = rot
    if case["level"]:
        w, h = (rx, ry) if a["u"][1] == 0 else (ry, rx)
        box = dict(left=c[0] - w, right=c[0] + w, top=c[1] - h, bottom=c[1] + h)
    # the positive sense is the default
    turn = {} if not ccw and rng.random() < 0.5 else {"ccw": ccw}
    if turn and rng.random() < 0.3:
        turn["ccw"] = int(turn["ccw"])
    for way in case["ways"]:
        words = way.split()
        kind = words[0]
        args, kw = (), {}
        if way == "all":
            # (a complex second argument of six announces the svg form)
            args, kw = [((s_, tuple(e), c_, prx_, pry_, sweep), {}),
                        ((s_, e_, c_, prx_, pry_), dict(sweep=sweep)),
                        ((), dict(ends, center=c_, prx=prx_, pry=pry_, sweep=sweep))][case["form"] % 3]
        elif way == "noend":
            args, kw = [((s_, None, c_, prx_, pry_), dict(sweep=sweep)),
                        ((), dict(start=s_, center=c_, prx=prx_, pry=pry_, sweep=sweep))][case["form"] % 2]
        elif way == "nostart":
            args, kw = [((None, e_, c_, prx_, pry_), dict(sweep=sweep)),
                        ((), dict(end=e_, center=c_, prx=prx_, pry=pry_, sweep=sweep))][case["form"] % 2]
        elif way == "turn":
            args, kw = [((s_, e_, c_, prx_, pry_), turn),
                        ((), dict(ends, center=c_, prx=prx_, pry=pry_, **turn))][case["form"] % 2]
        elif kind == "axes":
            kw = dict(axes, **{"noend": dict(start=s_, sweep=sweep), "nostart": dict(end=e_, sweep=sweep),
                               "turn": dict(ends, **turn), "both": dict(ends, sweep=sweep)}[words[1]])
        elif kind == "box":
            kw = dict(box, **{"noend": dict(start=s_, sweep=sweep), "turn": dict(ends, **turn)}[words[1]])
        elif way == "r noend":
            kw = dict(start=s_, center=c_, r=rx, sweep=sweep)
        elif way == "r center":
            kw = dict(ends, center=c_, r=rx, **turn)
        elif way == "center noend":
            args, kw = [((s_, None, c_), dict(sweep=sweep)), ((), dict(start=s_, center=c_, sweep=sweep))][case["form"] % 2]
        elif way == "center nostart":
            args, kw = [((None, e_, c_), dict(sweep=sweep)), ((), dict(end=e_, center=c_, sweep=sweep))][case["form"] % 2]
        elif way == "center turn":
            args, kw = [((s_, e_, c_), turn), ((), dict(ends, center=c_, **turn))][case["form"] % 2]
        elif way in ("bulge", "sagitta"):
            b = tan(sweep / 4)
            v = b if way == "bulge" else b * hypot(e[0] - s[0], e[1] - s[1]) / 2
            args, kw = [((s_, e_), {way: v}), ((), dict(ends, **{way: v}))][case["form"] % 2]
        elif way == "control":
            via = P(pts[1 + case["form"] % (len(pts) - 2)])
            args, kw = [((s_, e_), dict(control=via)), ((), dict(ends, control=via))][case["form"] // 7 % 2]
        elif way == "r":
            args, kw = [((s_, e_), dict(turn, r=rx)), ((), dict(ends, r=rx, **turn))][case["form"] % 2]
        elif way == "corner":
            w, h = abs(e[0] - s[0]), abs(e[1] - s[1])
            sc = dict(scooped=True) if ccw else {} if rng.random() < 0.5 else dict(scooped=False)
            args, kw = [((s_, e_), dict(sc, rx=w, ry=h)), ((), dict(ends, rx=w, ry=h, **sc))][case["form"] % 2]
        else:
            raise AssertionError(way)
        items = list(kw.items())
        rng.shuffle(items)
        yield way, args, dict(items)


def one(job):
    from svgio.path import Arc
    case, index = job
    a = case["arc"]
    rng = random.Random(index)
    f = [1.0, 0.125, 100.0][index % 3]
    pts = [frac(p, p[2] / f) for p in case["pts"]]
    s, e = pts[0], pts[-1]
    c = frac(a["c"], 1 / f)
    rs = sorted((f * hypot(*a["u"]), f * hypot(*a["v"])))
    n = len(pts) - 1
    for way, args, kw in ways(case, f, rng):
        what = "%s: Arc(%s)" % (way, ", ".join([repr(x) for x in args] + ["%s=%r" % x for x in kw.items()]))
        try:
            seg = Arc(*args, **kw)
        except Exception as ex:
            return "%s raised %r" % (what, ex)
        r = max(rs)
        def off(p, q, tol=1e-6):
            return p is None or abs(p[0] - q[0]) > tol * (r + abs(q[0]) + abs(q[1])) or abs(p[1] - q[1]) > tol * (r + abs(q[0]) + abs(q[1]))
        if off(seg.start, s) or off(seg.end, e):
            return "%s runs from %r to %r instead of %r to %r" % (what, seg.start, seg.end, s, e)
        if off(seg.center, c):
            return "%s has the center %r instead of %r" % (what, seg.center, c)
        if not close(seg.sweep, sweep_of(a), 1e-6):
            return "%s sweeps %r instead of %r" % (what, seg.sweep, sweep_of(a))
        if not all(close(x, y, 1e-6) for x, y in zip(sorted((abs(seg.rx), abs(seg.ry))), rs)):
            return "%s has the radii %r, %r instead of %r" % (what, seg.rx, seg.ry, rs)
        for k, q in enumerate(pts):
            p = seg.point(k / n)
            if off(p, q):
                return "%s: point(%d/%d) is %r instead of %r" % (what, k, n, p, q)
    return None


def wrapped(job):
    r = attempt(one, job)
    return r[1] if r[0] == "ok" else "raised %s %s" % r[1:]


def check_G10(check):
    r = check.mc("ArcWays", CFG, simulate=6000 if QUICK else 60000, depth=8)
    jobs = [(c, i) for i, c in enumerate(r.prints)]
    for (c, i), res in zip(jobs, pool_map(wrapped, jobs)):
        check.validated += 1
        for w in c["ways"]:
            check.tally("ways", w + (" closed" if c["closed"] else ""))
        if res:
            check.violation(res, dict(case=c, index=i))
    check.sample(r.prints[0])


QCFG = """SPECIFICATION WaySpec
INVARIANTS InvFrame InvQuadrant EmitQuery
"""


def query(job):
    from svgio.basic import Angle, Point
    from svgio.path import Arc
    case, index = job
    a = case["arc"]
    rng = random.Random(index)
    f = [1.0, 0.125, 100.0][index % 3]
    pts = [frac(p, p[2] / f) for p in case["pts"]]
    s, e = pts[0], pts[-1]
    c = frac(a["c"], 1 / f)
    rx, ry = f * hypot(*a["u"]), f * hypot(*a["v"])
    rot = atan2(a["u"][1], a["u"][0])
    prx = (c[0] + f * a["u"][0], c[1] + f * a["u"][1])
    h = rng.choice([1, -1])
    pry = (c[0] + h * f * a["v"][0], c[1] + h * f * a["v"][1])
    seg = Arc(s, e, c, prx, pry, sweep_of(a))
    what = repr(seg)
    r = max(rx, ry)

    def off(p, q, tol=1e-8):
        return p is None or abs(p[0] - q[0]) > tol * (r + abs(q[0]) + abs(q[1])) or abs(p[1] - q[1]) > tol * (r + abs(q[0]) + abs(q[1]))

    def wrong(x, y, tol=1e-8 * (r / min(rx, ry)) ** 2):
        """Angles that differ by other than whole turns."""
        return abs(remainder(float(x) - y, tau)) > tol

    if not (close(seg.rx, rx, 1e-9) and close(seg.ry, ry, 1e-9) and not off(seg.radius, (rx, ry))):
        return "%s has the radii %r %r %r" % (what, seg.rx, seg.ry, seg.radius)
    if wrong(seg.get_rotation(), rot):
        return "%s is rotated by %r" % (what, seg.get_rotation())
    if bool(seg.is_circular()) != case["circular"]:
        return "%s: is_circular() is %r" % (what, seg.is_circular())
    if not close(seg.delta, 360 * sweep_of(a) / tau, 1e-9):
        return "%s: delta is %r" % (what, seg.delta)
    for k, (d, see, q) in enumerate(zip(case["dirs"], case["seen"], pts)):
        t, angle = atan2(d[1], d[0]), atan2(see[1], see[0])
        p = Point(*q)
        if wrong(seg.t_at_point(p), t):
            return "%s: the parameter of %r is %r instead of %r" % (what, p, seg.t_at_point(p), t)
        if wrong(seg.angle_at_point(p), angle):
            return "%s: the angle of %r is %r instead of %r" % (what, p, seg.angle_at_point(p), angle)
        # all points of a ray are seen in the same direction
        m = rng.choice([0.25, 0.5, 3, 10])
        ray = Point(c[0] + m * (q[0] - c[0]), c[1] + m * (q[1] - c[1]))
        if wrong(seg.angle_at_point(ray), angle):
            return "%s: the angle of %r is %r instead of %r" % (what, ray, seg.angle_at_point(ray), angle)
        turns = rng.choice([0, 0, 1, -1])
        if off(seg.point_at_t(t + turns * tau), q):
            return "%s: point_at_t(%r) is %r instead of %r" % (what, t + turns * tau, seg.point_at_t(t + turns * tau), q)
        x = angle + turns * tau
        if rng.random() < 0.3:
            x = Angle.radians(x)
        if off(seg.point_at_angle(x), q, 1e-8 * (r / min(rx, ry)) ** 2):
            return "%s: point_at_angle(%r) is %r instead of %r" % (what, x, seg.point_at_angle(x), q)
        if k in (0, len(pts) - 1):
            for name, y in ([("get_start_t", t), ("get_start_angle", angle)] if k == 0 else [("get_end_t", t), ("get_end_angle", angle)]):
                x = getattr(seg, name)()
                if wrong(x, y):
                    return "%s: %s() is %r instead of %r" % (what, name, x, y)
        if k == 0:
            x = seg.theta
            if wrong(x * tau / 360, t) or not -1e-9 <= x <= 360:
                return "%s: theta is %r instead of %r" % (what, x, 360 * t / tau)
    return None


def wrapped_query(job):
    r = attempt(query, job)
    return r[1] if r[0] == "ok" else "raised %s %s" % r[1:]


def check_G11(check):
    r = check.mc("ArcWays", QCFG, simulate=8000 if QUICK else 80000, depth=8)
    jobs = [(c, i) for i, c in enumerate(r.prints)]
    for (c, i), res in zip(jobs, pool_map(wrapped_query, jobs)):
        check.validated += 1
        check.tally("circular", "yes" if c["circular"] else "no")
        check.tally("steps", len(c["pts"]) - 1)
        if res:
            check.violation(res, dict(case=c, index=i))
    check.sample(r.prints[0])
