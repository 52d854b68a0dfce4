"""G08: convex hulls (Hull.tla)."""
import random
from itertools import islice

import common
from common import QUICK, attempt, pool_map

GRID = """SPECIFICATION Spec
CONSTANTS W={w} H={h} N=0 R=0
INVARIANTS InvExtreme InvTurns Emit
"""
RAND = """SPECIFICATION RSpec
CONSTANTS W=1 H=1 N={n} R={r}
INVARIANTS InvExtreme InvTurns Emit
"""
OFFSETS = [(0, 0, 1), (-7, 3, 1), (0.25, -1000, 0.5), (1000000, 0, 4), (-1, -1, 2.0 ** -20)]


def one(job):
    from svgio.basic import Point
    case, index = job
    rng = random.Random(index)
    ox, oy, f = OFFSETS[index % 5]
    at = lambda p: (p[0] * f + ox, p[1] * f + oy)
    kinds = [Point, lambda p: (p[0], p[1]), lambda p: Point(*p)]
    pts = [at(p) for p in case["pts"]]
    corners = [at(p) for p in case["corners"]]
    first = None
    for n in range(3):
        make = kinds[(index + n) % 3]
        some = list(pts)
        if n:
            some += [rng.choice(pts) for _ in range(rng.randrange(4))]
            rng.shuffle(some)
        some = [make(p) for p in some]
        before = [tuple(p) for p in some]
        got = [tuple(p) for p in islice(Point.convex_hull(some), len(some) + 1)]
        if [tuple(p) for p in some] != before:
            return "the hull changed its input"
        k = len(corners)
        ways = [corners[i:] + corners[:i] for i in range(k)]
        ways += [w[::-1] for w in ways]
        if got not in ways:
            return "the hull of %r is %r instead of %r" % (before, got, corners)
        if first is not None and got != first:
            return "the hull of %r is %r or %r depending on order and duplicates" % (before, got, first)
        first = got
    for _ in range(6):
        p, q, r = (rng.choice(case["pts"]) for _ in range(3))
        turn = (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
        o = Point.orientation(*(rng.choice(kinds)(at(x)) for x in (p, q, r)))
        if o != (0 if turn == 0 else 1 if turn < 0 else 2):
            return "the orientation of %r %r %r is %r" % (at(p), at(q), at(r), o)
    return None


def wrapped(job):
    r = attempt(one, job)
    return r[1] if r[0] == "ok" else "raised %s %s" % r[1:]


def check_G08(check):
    from svgio.basic import Point
    prints = []
    for w, h in ((3, 3), (4, 2), (2, 5)) if QUICK else ((3, 3), (4, 3), (2, 6), (7, 1), (5, 3)):
        r = check.mc("Hull", GRID.format(w=w, h=h))
        check.cover.setdefault("grids", {})["%dx%d" % (w, h)] = len(r.prints)
        prints += r.prints
    for n, rad in ((5, 2), (9, 4), (12, 10), (30, 100)):
        prints += check.mc("Hull", RAND.format(n=n, r=rad), simulate=500 if QUICK else 10000, depth=400).prints
    jobs = [(c, i) for i, c in enumerate(prints)]
    for (c, i), res in zip(jobs, pool_map(wrapped, jobs)):
        check.validated += 1
        check.tally("corners", len(c["corners"]))
        if res:
            check.violation(res, dict(case=c, index=i))
    r = attempt(lambda: list(Point.convex_hull([])))
    if r != ("ok", []):
        check.violation("the hull of no points is %r" % (r,), dict(pts=[]))
    check.sample(prints[-1])
