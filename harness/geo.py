"""Shared by the geometric checks: building segments of the code from exact data."""
from math import atan2, degrees, hypot, radians, tau

from common import close


def bezier(net, close_line=False):
    from svgio.path import Line, Close, QuadraticBezier, CubicBezier
    p = [tuple(x) for x in net]
    if len(p) == 2:
        return (Close if close_line else Line)(p[0], p[1])
    return QuadraticBezier(*p) if len(p) == 3 else CubicBezier(*p)


def frac(p, s):
    return (p[0] / s, p[1] / s)


def angle_of(d):
    return atan2(d[1], d[0])


def on_ellipse(a, t):
    """The point of the arc record [c, u, v, a0, turn, n, dir] at parameter t (0..1), by definition."""
    from math import cos, sin
    th = angle_of(a["a0"]) + t * sweep_of(a)
    c, u, v = a["c"], a["u"], a["v"]
    return (c[0] + u[0] * cos(th) + v[0] * sin(th), c[1] + u[1] * cos(th) + v[1] * sin(th))


def sweep_of(a):
    return a["dir"] * a["n"] * (angle_of(a["turn"]) % tau)


def arc(a, ends=None):
    """The native arc of a record; ends: its exact end points where known."""
    from svgio.path import Arc
    c, u, v = a["c"], a["u"], a["v"]
    s, e = ends or (on_ellipse(a, 0), on_ellipse(a, 1))
    # the second radius only tells how wide the ellipse is, it may point either way
    h = -1 if int(sum(map(abs, c)) + a["n"]) % 4 == 0 else 1
    w = sweep_of(a)
    if int(sum(map(abs, u)) + a["n"]) % 3 == 0:
        from svgio import Angle
        w = Angle(w)
    return Arc(s, e, tuple(c), (c[0] + u[0], c[1] + u[1]), (c[0] + h * v[0], c[1] + h * v[1]), w)


def near(p, q, tol=1e-7):
    return p is not None and close(p[0], q[0], tol) and close(p[1], q[1], tol)


def pts(p):
    return [tuple(float(c) for c in x) for x in p]
