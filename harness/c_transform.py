"""G07: transformed segments and paths (Transform.tla)."""
import random
from copy import copy
from math import hypot

import common
from common import QUICK, attempt, close, pool_map
from c_matrix import coeffs, exact, text_of
from geo import arc

CFG = """SPECIFICATION Spec
CONSTANTS Size={size} Steps={steps}
INVARIANTS InvProduct InvConnected Emit
"""


def pt(p):
    return (p[0] / p[2], p[1] / p[2])


def build(s):
    from svgio.path import Move, Line, Close, QuadraticBezier, CubicBezier, Arc
    p = [pt(x) for x in s["pts"]]
    k = s["kind"]
    if k == "arc":
        return arc(s["arc"], (p[0], p[-1]))
    if k == "flat":
        return Arc(p[0], 0, 3, 20, 0, 1, p[1])
    return dict(move=Move, line=Line, close=Close, quad=QuadraticBezier, cubic=CubicBezier)[k](*p)


def differs(seg, s, want, moves):
    """How the segment seg differs from the kind of s at the points want."""
    from svgio.path import Move, Line, Close, QuadraticBezier, CubicBezier, Arc
    k = s["kind"]
    cls = dict(move=Move, line=Line, close=Close, quad=QuadraticBezier, cubic=CubicBezier, arc=Arc, flat=Arc)[k]
    if type(seg) is not cls:
        return "a %s became a %s" % (k, type(seg).__name__)
    want = [pt(p) for p in want]
    size = max(1.0, *(abs(c) for p in want for c in p))

    def near(p, w, tol=1e-9):
        return p is not None and abs(p[0] - w[0]) <= tol * size and abs(p[1] - w[1]) <= tol * size
    if k == "move":
        return None if near(seg.end, want[1]) and (not moves or near(seg.start, want[0])) else "moveto at %r %r instead of %r" % (seg.start, seg.end, want)
    if not (near(seg.start, want[0]) and near(seg.end, want[-1])):
        return "the ends are %r %r instead of %r %r" % (seg.start, seg.end, want[0], want[-1])
    if k == "quad" and not near(seg.control, want[1]) or k == "cubic" and not (near(seg.control1, want[1]) and near(seg.control2, want[2])):
        return "control points of %r instead of %r" % (seg, want)
    if k in ("line", "close", "flat"):
        for t in (0, 0.25, 0.5, 1):
            if not near(seg.point(t), (want[0][0] + t * (want[1][0] - want[0][0]), want[0][1] + t * (want[1][1] - want[0][1]))):
                return "point(%r) of %r is %r" % (t, seg, seg.point(t))
    if k == "arc":
        n = len(want) - 1
        for j, w in enumerate(want):
            if not near(seg.point(j / n), w, 2e-6):
                return "point(%d/%d) of the arc is %r instead of %r" % (j, n, seg.point(j / n), w)
        u, v = seg.prx - seg.center, seg.pry - seg.center
        if abs(u.x * v.x + u.y * v.y) > 1e-6 * (abs(u) * abs(v) + 1e-9):
            return "the radii are not perpendicular: %r %r" % (u, v)
    return None


def state(seg):
    return (type(seg).__name__,) + tuple(None if p is None else tuple(p) for p in seg) + (getattr(seg, "sweep", None),)


def operand(h, rng):
    from svgio.basic import Matrix
    if "text" in h["form"]:
        return text_of(h["o"], rng)
    return Matrix(*exact(h["m"]))


def compare(segs, base, want, what, moves=True):
    segs = list(segs)
    if len(segs) != len(base):
        return "%s: %d segments instead of %d" % (what, len(segs), len(base))
    for i, (g, s, w) in enumerate(zip(segs, base, want)):
        r = differs(g, s, w, moves and i > 0)
        if r:
            return "%s: segment %d: %s" % (what, i, r)
    return None


def one(job):
    from svgio.basic import Matrix
    from svgio.path import Path
    case, index = job
    rng = random.Random(index)
    base = case["base"]
    if case["subject"] == "segment":
        obj = build(base[0])
    else:
        obj = Path()
        for s in base:
            obj.append(build(s))
    last = [s["pts"] for s in base]
    for n, h in enumerate(case["hist"]):
        x = operand(h, rng)
        before = coeffs(x) if isinstance(x, Matrix) else x
        what = "step %d %s %s %s (%s)" % (n, h["on"], h["form"], h["o"]["op"], x)
        lo, hi = h["run"][0] - 1, h["run"][1]
        if case["subject"] == "segment":
            if h["form"].startswith("inplace"):
                same = obj
                same *= x
                if same is not obj:
                    return what + ": not in place"
            else:
                old = state(obj)
                new = obj * x
                if state(obj) != old:
                    return what + ": the operand was changed"
                obj = new
            r = compare([obj], base, h["now"], what, moves=False)
            if not r and base[0]["kind"] == "move":
                r = compare([obj], base, h["now"], what)
        elif h["on"] == "all":
            if rng.random() < 0.5:
                obj.length()
            if h["form"].startswith("inplace"):
                same = obj
                same @= x
                if same is not obj:
                    return what + ": not in place"
            else:
                old = [state(s) for s in obj]
                new = obj @ x
                if [state(s) for s in obj] != old:
                    return what + ": the operand was changed"
                obj = new
            r = compare(obj, base, h["now"], what)
        else:
            subs = list(obj.as_subpaths())
            sub = [s for s in subs if s._start == lo] if False else subs[sum(1 for i in range(1, lo + 1) if base[i]["kind"] == "move")]
            if h["form"].startswith("inplace"):
                same = sub
                same *= x
                r = compare(obj, base, h["now"], what)
                if not r:
                    r = compare(same, base[lo:hi], h["now"][lo:hi], what + " view", moves=False)
            else:
                old = [state(s) for s in obj]
                new = sub * x
                if [state(s) for s in obj] != old:
                    return what + ": the operand was changed"
                r = compare(new, base[lo:hi], h["now"][lo:hi], what, moves=False)
                if not r:
                    r = compare(obj, base, last, what + " operand")
        if r:
            return r
        if isinstance(x, Matrix) and coeffs(x) != before:
            return what + ": the matrix was changed"
        if not (h["on"] == "run" and h["form"] == "new"):
            last = h["now"]
    if case["total"]:       # at once
        m = Matrix(*exact(case["total"]))
        if case["subject"] == "segment":
            return compare([build(base[0]) * m], base, last, "at once %r" % m, moves=base[0]["kind"] == "move")
        p = Path()
        for s in base:
            p.append(build(s))
        r = compare(p @ m, base, last, "at once %r" % m)
        if r:
            return r
        for i in (Matrix(), ""):
            if [state(s) for s in p @ i] != [state(s) for s in p]:
                return "the identity changed the path"
    return None


def wrapped(job):
    r = attempt(one, job)
    return r[1] if r[0] == "ok" else "raised %s %s" % r[1:]


def check_G07(check):
    prints = []
    for size, steps, n in ((1, 3, 1500), (4, 2, 700), (8, 3, 400)):
        prints += check.mc("Transform", CFG.format(size=size, steps=steps), simulate=n if QUICK else n * 20, depth=60).prints
    prints += check.mc("Transform", CFG.format(size=1, steps=1).replace("Spec\n", "SpecHardly\n"), simulate=400 if QUICK else 4000, depth=5).prints
    jobs = [(c, i) for i, c in enumerate(prints)]
    for (c, i), res in zip(jobs, pool_map(wrapped, jobs)):
        check.validated += 1
        for h in c["hist"]:
            check.tally("steps", "%s %s %s" % (c["subject"], h["on"], h["form"]))
            check.tally("maps", h["o"]["op"])
        if res:
            check.violation("%s: %s" % ([(s["kind"], s["pts"]) for s in c["base"]], res), dict(case=c, index=i))
    check.sample(prints[0])
