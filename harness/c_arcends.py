"""G05: arcs given by their end points (ArcEnds.tla)."""
import random
from math import atan2, degrees, hypot

import common
from common import QUICK, attempt, close, pool_map
from geo import frac, near, sweep_of

CFG = """SPECIFICATION Spec
INVARIANTS InvLarge Emit
"""


def build(form, s, rx, ry, rot, large, sweep, e):
    from svgio.path import Arc, Path
    fa, fs = (int(large), int(sweep)) if form % 2 else (bool(large), bool(sweep))
    form //= 2
    k = form % 6
    if k == 0:
        return Arc(s, rx, ry, rot, fa, fs, e)
    if k == 1:
        return Arc(complex(*s), complex(rx, ry), rot, fa, fs, complex(*e))
    if k == 2:
        return Arc(start=s, radius=complex(rx, ry), rotation=rot, arc_flag=fa, sweep_flag=fs, end=e)
    if k == 3:
        p = Path().move(s)
        p.arc(rx, ry, rot, fa, fs, e)
        return p[1]
    if k == 4:
        return Path("M%r,%r A%r,%r %r %d %d %r,%r" % (s[0], s[1], rx, ry, rot, large, sweep, e[0], e[1]))[1]
    return Path("M%r,%r a%r %r,%r,%d,%d,%r,%r" % (s[0], s[1], rx, ry, rot, large, sweep, e[0] - s[0], e[1] - s[1]))[1]


def one(job):
    case, index = job
    a = case["arc"]
    rng = random.Random(index)
    f = [1.0, 0.125, 100.0][index % 3]
    pts = [frac(p, p[2] / f) for p in case["pts"]]
    s, e = pts[0], pts[-1]
    rx, ry = f * hypot(*a["u"]), f * hypot(*a["v"])
    rot = degrees(atan2(a["u"][1], a["u"][0]))
    large, sweep = case["large"], a["dir"] > 0
    kind = a["kind"]
    if case["half"]:
        large = rng.random() < 0.5     # half a turn is neither
    # other descriptions of the same ellipse
    if rng.random() < 0.3:
        rx, ry, rot = ry, rx, rot + 90
    rot += rng.choice([0, 0, 180, -180, 360, -360])
    if kind == "small":
        rx, ry = (r * a["shrink"][1] / a["shrink"][0] for r in (rx, ry))
    if rng.random() < 0.3:
        rx *= rng.choice([1, -1])
        ry *= rng.choice([1, -1])
    if kind == "flat":
        rx, ry = [(0, ry), (rx, 0), (0, 0)][a["flat"] - 1]
        large, sweep = rng.random() < 0.5, rng.random() < 0.5
    if kind == "same":
        e = s
        large, sweep = rng.random() < 0.5, rng.random() < 0.5
    seg = build(case["form"], s, rx, ry, rot, large, sweep, e)
    what = "Arc(%r, %r, %r, %r, %r, %r, %r)" % (s, rx, ry, rot, large, sweep, e)
    if not near(seg.start, s, 1e-9) or not near(seg.end, e, 1e-9):
        return "%s runs from %r to %r" % (what, seg.start, seg.end)
    if not (near(seg.point(0), s, 1e-9) and near(seg.point(1), e, 1e-9)):
        return "%s has the ends %r %r" % (what, seg.point(0), seg.point(1))
    if kind in ("flat", "same"):
        for t in (0, 0.25, 0.5, rng.random(), 1):
            p = seg.point(t)
            if not near(p, (s[0] + t * (e[0] - s[0]), s[1] + t * (e[1] - s[1])), 1e-9):
                return "%s: point(%r) is %r, off the straight line" % (what, t, p)
        if not close(seg.length(), hypot(e[0] - s[0], e[1] - s[1]), 1e-9):
            return "%s has the length %r" % (what, seg.length())
        b = seg.bbox()
        if not (near(b[:2], (min(s[0], e[0]), min(s[1], e[1])), 1e-9) and near(b[2:], (max(s[0], e[0]), max(s[1], e[1])), 1e-9)):
            return "%s has the box %r" % (what, b)
        return None
    # the chord of half a turn leaves the center only roughly determined in floating point
    tol = 3e-6
    n = len(pts) - 1
    for k, q in enumerate(pts):
        p = seg.point(k / n)
        if not near((p[0] / f, p[1] / f), (q[0] / f, q[1] / f), tol):
            return "%s: point(%d/%d) is %r instead of %r" % (what, k, n, p, q)
    if not close(seg.sweep, sweep_of(a), 1e-5):
        return "%s sweeps %r instead of %r" % (what, seg.sweep, sweep_of(a))
    return None


def wrapped(job):
    r = attempt(one, job)
    return r[1] if r[0] == "ok" else "raised %s %s" % r[1:]


def check_G05(check):
    r = check.mc("ArcEnds", CFG, simulate=6000 if QUICK else 60000, depth=8)
    jobs = [(c, i) for i, c in enumerate(r.prints)]
    for (c, i), res in zip(jobs, pool_map(wrapped, jobs)):
        check.validated += 1
        check.tally("kinds", c["arc"]["kind"] + (" large" if c["large"] else ""))
        if res:
            check.violation(res, dict(case=c, index=i))
    check.sample(r.prints[0])
