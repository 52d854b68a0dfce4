"""D07: what shape elements draw (Shapes.tla)."""
import io
import random
from math import atan2, cos, hypot, pi, sin

import common
from common import QUICK, attempt, pool_map
from c_matrix import number, rat, text_of

CFG = """SPECIFICATION Spec
CONSTANTS Steps=%d
INVARIANTS InvConnected InvClosed InvQuarter InvRect InvMoved Emit
"""


def points_text(ps, rng):
    out = ""
    for i, x in enumerate(c for p in ps for c in p):
        t = "%s" % number(rat(x), rng)
        sep = rng.choice([" ", ",", ", ", " , ", "\n", "  "]) if t[0] != "-" else rng.choice([" ", ",", ""])
        out += (sep if i else "") + t
    return rng.choice(["", " "]) + out + rng.choice(["", "\n"])


def data_text(ps, rng):
    """The points as lines of path data, closed if there are more than three."""
    if not ps:
        return rng.choice(["", " "])
    return "M" + " L ".join("%r,%r" % (rat(p[0]), rat(p[1])) for p in ps) + ("z" if len(ps) > 3 else "")


def value(nm, v, rng):
    if nm == "transform":
        return rng.choice([" ", ",", ""]).join(text_of(o, rng) for o in v)
    if nm == "points":
        return points_text(v, rng)
    if nm == "d":
        return data_text(v, rng)
    return rng.choice(["", "", " "]) + number(rat(v), rng) + rng.choice(["", "", "px"])


def xy(p):
    return (p[0] / p[2], p[1] / p[2])


def at(s, t):
    """The point at t of a segment of the specification."""
    a, b = xy(s["s"]), xy(s["e"])
    if s["k"] != "arc":
        return tuple(a[i] + t * (b[i] - a[i]) for i in (0, 1))
    c = xy(s["c"])
    return tuple(c[i] + cos(t * pi / 2) * (a[i] - c[i]) + sin(t * pi / 2) * (b[i] - c[i]) for i in (0, 1))


def box(segs):
    out = []
    for i in (0, 1):
        lo, hi = [], []
        for s in segs:
            if s["k"] == "move":
                continue
            vs = [xy(s["s"])[i], xy(s["e"])[i]]
            if s["k"] == "arc":
                c = xy(s["c"])[i]
                u, v = vs[0] - c, vs[1] - c
                for sign in (1, -1):
                    if sign * u > 0 and sign * v > 0:  # the extremum lies within the quarter
                        vs.append(c + sign * hypot(u, v))
            lo.append(min(vs))
            hi.append(max(vs))
        if not lo:
            return None
        out.append((min(lo), max(hi)))
    return (out[0][0], out[1][0], out[0][1], out[1][1])


def differs(got, want, what, digits=False):
    """What differs; with digits the segments come from a text of six digits, from which arcs are computed anew."""
    from svgio import path
    names = dict(move=path.Move, line=path.Line, close=path.Close, arc=path.Arc)
    got = list(got)
    if len(got) != len(want) or any(type(g) is not names[w["k"]] for g, w in zip(got, want)):
        return "%s is %r instead of %r" % (what, got, [w["k"] for w in want])
    size = max([1.0] + [abs(c) for w in want for p in (w["s"], w["e"]) if p for c in xy(p)])
    tol, inner = (2e-5, 2e-3) if digits else (2e-6, 2e-6)
    for g, w in zip(got, want):
        if w["k"] == "move":
            if hypot(g.end[0] - xy(w["e"])[0], g.end[1] - xy(w["e"])[1]) > tol * size:
                return "%s moves to %r instead of %r" % (what, g.end, xy(w["e"]))
            continue
        ends = ((g.start, xy(w["s"]), tol), (g.end, xy(w["e"]), tol))
        for p, q, e in ends + tuple((g.point(t), at(w, t), inner) for t in (0, 0.25, 0.5, 1)):
            if p is None or not hypot(p[0] - q[0], p[1] - q[1]) <= e * size:
                return "%s has %r with %r instead of %r (%r)" % (what, g, p, q, w)
    return None


def near_box(got, want, size):
    if want is None or got is None:
        return got is want
    return len(got) == 4 and all(abs(a - b) <= 2e-6 * size for a, b in zip(got, want))


def looks(node, st, rng):
    from svgio import path
    plain, moved = st["segs"], st["moved"]
    for kw, want in (({}, moved), ({"transformed": True}, moved), ({"transformed": False}, plain)):
        r = differs(node.segments(**kw), want, "segments(%r)" % kw)
        if r:
            return r
        size = max([1.0] + [abs(c) for w in want for p in (w["s"], w["e"]) if p for c in xy(p)])
        got = node.bbox(**kw)
        if not near_box(got, box(want), size):
            return "bbox(%r) is %r instead of %r" % (kw, got, box(want))
        if st["kind"] != "path":
            text = node.d(**kw)
            r = differs(path.Path(text), want, "d(%r), %r," % (kw, text), True)
            if r or any(c.islower() and c not in "e" for c in text):
                return r or "d(%r) is not absolute: %r" % (kw, text)
    if st["kind"] in ("circle", "ellipse"):
        for t in (0, rng.random(), 0.25, 0.5, 0.75, 1):
            p, q = node.point(t), at(plain[min(int(t * 4), 3) + 1], t * 4 - min(int(t * 4), 3))
            if not hypot(p[0] - q[0], p[1] - q[1]) <= 2e-6 * size:
                return "point(%r) is %r instead of %r" % (t, p, q)
    if st["kind"] != "path" and plain:
        for kw, want in (({}, moved), ({"transformed": True}, moved), ({"transformed": False}, plain)):
            text = node.d(relative=True, **kw)
            r = differs(path.Path(text), want, "d(relative=True, %r), %r," % (kw, text), True)
            if r or any(c.isupper() and c not in "E" for c in text):
                return r or "d(relative=True, %r) is %r" % (kw, text)
    return None


def one(job):
    from svgio.nodes import Document
    hist, seed = job
    rng = random.Random(seed)
    up = Document().svg().g()
    node = None
    known = [{}, {}]
    for n, st in enumerate(hist):
        for have, want, e in ((known[0], st["own"], node), (known[1], st["up"], up)):
            want = dict(want)
            for nm in [k for k in have if k not in want]:
                del have[nm]
                if e is not None:
                    del e.attributes[nm]
            for nm, v in want.items():
                if nm not in have or have[nm][0] != v:
                    have[nm] = (v, value(nm, v, rng))
                    if e is not None:
                        e.attributes[nm] = have[nm][1]
        if node is None:
            node = getattr(up, st["kind"])(**{nm: t for nm, (v, t) in known[0].items()})
            if rng.random() < 0.3:
                up = Document(io.BytesIO(up.xml().encode("utf-8")))[0]
                node = up[0]
        before = dict(node.attributes), dict(up.attributes)
        r = attempt(looks, node, st, rng)
        bad = r[1] if r[0] == "ok" else "raised %s %s" % r[1:]
        if bad:
            return "step %d, a %s with %r in a group with %r: %s" % (n, st["kind"], dict(node.attributes), dict(up.attributes), bad)
        if (dict(node.attributes), dict(up.attributes)) != before:
            return "drawing changed the attributes %r to %r" % (before, node.attributes)
    return None


def check_D07(check):
    steps, n = (5, 700) if QUICK else (12, 8000)
    jobs = []
    for st in check.mc("Shapes", CFG % steps, simulate=n, depth=steps + 1).prints:
        if st["step"] == 1:
            jobs.append(([], len(jobs)))
        jobs[-1][0].append(st)
    for (hist, i), res in zip(jobs, pool_map(one, jobs, chunk=20)):
        check.validated += 1
        check.tally("shapes", hist[0]["kind"])
        check.count("states", len(hist))
        if res:
            check.violation(res, dict(history=hist, index=i))
    check.sample(jobs[0][0])
