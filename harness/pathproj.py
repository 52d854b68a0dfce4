"""Projection of paths to what the path specifications talk about, and ways to build paths."""
from math import degrees, pi

from common import close

KINDS = {"Move": "M", "Line": "L", "Close": "Z", "QuadraticBezier": "Q", "CubicBezier": "C", "Arc": "A"}
BAD = 2147483647  # stands for a number no specification has


def xy(p):
    return None if p is None else (float(p.x), float(p.y))


def controls(seg):
    n = type(seg).__name__
    if n == "QuadraticBezier":
        return [seg.control]
    if n == "CubicBezier":
        return [seg.control1, seg.control2]
    return []


def near(p, q, scale, tol=1e-9):
    """Point of the code against point of the specification."""
    if p is None or len(q) == 0:
        return p is None and len(q) == 0
    return close(p.x, q[0] / scale, tol) and close(p.y, q[1] / scale, tol)


def rot_eq(a, b, tol=1e-6):
    d = (a - b) % 180.0
    return min(d, 180.0 - d) <= tol


def arc_diff(seg, g, scale, tol):
    a = g["a"]
    cls = a[5]
    sweep = float(seg.sweep)
    if cls == "dot":
        return None if close(seg.length(), 0, 1e-7) else "an arc without extent has length %r" % seg.length()
    if cls == "line":
        m = seg.point(0.5)
        if not (close(m.x, (g["s"][0] + g["e"][0]) / 2 / scale, tol) and close(m.y, (g["s"][1] + g["e"][1]) / 2 / scale, tol)):
            return "an arc with a zero radius is not straight"
        return None
    if (sweep > 0) != bool(a[4]):
        return "arc direction"
    if cls == "full":
        if (abs(sweep) > pi) != bool(a[3]):
            return "large arc flag"
        if abs(sweep) > 2 * pi + 1e-9:
            return "sweep %r beyond a turn" % sweep
        rx, ry = float(seg.rx), float(seg.ry)
        if not (close(rx, a[0] / scale, tol * 100) and close(ry, a[1] / scale, tol * 100)):
            return "arc radii %r %r" % (rx, ry)
        if a[0] != a[1] and not rot_eq(degrees(float(seg.get_rotation())), a[2], 1e-5):
            return "arc rotation %r" % seg.get_rotation()
        if a[0] == a[1]:
            c = seg.center
            for p in (seg.start, seg.end, seg.point(0.5)):
                if not close(c.distance_to(p), a[0] / scale, 1e-6):
                    return "arc is not on its circle"
    return None


def seg_diff(seg, g, scale, tol=1e-9, spelling=True):
    """None if the code's segment is the specification's, else what differs."""
    k = KINDS.get(type(seg).__name__)
    if k != g["k"]:
        return "kind %s instead of %s" % (type(seg).__name__, g["k"])
    if spelling:
        if bool(seg.relative) != g["r"]:
            return "recorded relative %r" % seg.relative
        if g["k"] in ("quad", "cubic", "Q", "C") and bool(seg.smooth) != g["h"]:
            return "recorded smooth %r" % seg.smooth
    if not near(seg.start, g["s"], scale, tol):
        return "start %r instead of %r" % (seg.start, g["s"])
    if not near(seg.end, g["e"], scale, tol):
        return "end %r instead of %r" % (seg.end, g["e"])
    cs = controls(seg)
    for p, q in zip(cs, g["c"]):
        if not near(p, q, scale, tol):
            return "control %r instead of %r" % (p, q)
    if k == "A":
        return arc_diff(seg, g, scale, tol)
    return None


def path_diff(path, segs, scale, tol=1e-9, spelling=True):
    ss = list(path)
    if len(ss) != len(segs):
        return "%d segments instead of %d" % (len(ss), len(segs))
    for i, (s, g) in enumerate(zip(ss, segs)):
        d = seg_diff(s, g, scale, tol, spelling)
        if d:
            return "segment %d: %s (units of 1/%s)" % (i, d, scale)
    return None


ARITY = dict(M=2, L=2, T=2, H=1, V=1, C=6, S=4, Q=4, A=7, Z=0)


def coordinate_text(n, scale):
    """A decimal text of n/scale (scale a power of two up to 1024 or of ten)."""
    v = n / scale
    t = repr(v)
    if t.endswith(".0"):
        t = t[:-2]
    return t


def arg_texts(c, nums, scale):
    """The texts of a command's numbers; rotation and flags are not scaled."""
    out = []
    a = ARITY[c.upper()]
    for i, n in enumerate(nums):
        if c.upper() == "A" and i % a in (2, 3, 4):
            out.append(str(n))
        else:
            out.append(coordinate_text(n, scale))
    return out


def plain_text(prog, scale):
    return " ".join(cmd["c"] + " " + " ".join(arg_texts(cmd["c"], cmd["n"], scale)) for cmd in prog)


def build_by_methods(Path, prog, segs, scale, mkpoint):
    """Draws the program with the path's methods. Points are absolute there, also in relative commands."""
    p = Path()
    i = 0  # next segment of segs
    for index, cmd in enumerate(prog):
        c = cmd["c"]
        u = c.upper()
        rel = c.islower()
        # absolute is the default
        kw = {} if not rel and (len(prog) + index) % 2 else {"relative": rel}
        a = ARITY[u]
        n = cmd["n"]
        groups = 1 if a == 0 else (len(n) + (2 if cmd["z"] else 0)) // a
        mine = segs[i:i + groups]
        i += groups
        q = lambda pt: mkpoint(pt[0] / scale, pt[1] / scale)
        args = []
        for gi, g in enumerate(mine):
            end = q(g["e"])
            if cmd["z"] and gi == groups - 1:
                end = "z"
            if u in "MLT":
                args.append(end)
            elif u in "HV":
                args.append(n[gi] / scale)
            elif u == "C":
                args += [q(g["c"][0]), q(g["c"][1]), end]
            elif u == "S":
                args += [q(g["c"][1]), end]
            elif u == "Q":
                args += [q(g["c"][0]), end]
            elif u == "A":
                m = n[gi * 7:gi * 7 + 5]
                args += [m[0] / scale, m[1] / scale, m[2], m[3], m[4], end]
        if u == "Z":
            p.closed(**kw)
        else:
            f = dict(M=p.move, L=p.line, T=p.smooth_quad, H=p.horizontal, V=p.vertical, C=p.cubic, S=p.smooth_cubic, Q=p.quad, A=p.arc)[u]
            r = f(*args, **kw)
            if r is not p:
                raise AssertionError("drawing methods chain")
    return p
