"""P14: how segments and paths are given, and what they then hold (SegMake.tla)."""
import random

import common  # noqa
from common import QUICK, close
from c_pathedit import items_diff, mkseg
from c_segments import SCALES, decide, sized

CFG = """SPECIFICATION Spec{what}
CONSTANTS Draws={draws} Inits="partial"
INVARIANTS {inv}
"""


NAMES = {"M": ["start", "end"], "L": ["start", "end"], "Z": ["start", "end"], "Q": ["start", "control", "end"],
         "C": ["start", "control1", "control2", "end"]}


def same_place(p, want):
    if not want or p is None:
        return p is None and not want
    return close(p.x, want[0]) and close(p.y, want[1])


def places_diff(got, want):
    got = list(got)
    if len(got) != len(want) or not all(same_place(a, b) for a, b in zip(got, want)):
        return "%r instead of %r" % (got, want)


def given(p, rng):
    """A place as an argument."""
    from svgio import Point
    if not p:
        return None
    x, y = p
    return rng.choice([lambda: Point(x, y), lambda: (x, y), lambda: [x, y], lambda: complex(x, y), lambda: "%r,%r" % (x, y), lambda: "(%r, %r)" % (x, y)])()


def holds(s, case, f):
    """What the segment holds, by its names, indexes and iteration."""
    q = case["q"]
    d = places_diff([getattr(s, n) for n in NAMES[q["k"]]], [[c / f for c in p] for p in case["places"]])
    if d:
        return "named " + d
    want = [[c / f for c in p] for p in case["places"]]
    if len(s) != len(want):
        return "length %r" % len(s)
    d = places_diff([s[i] for i in range(len(want))], want)
    if d:
        return "indexed " + d
    for i in (len(want), len(want) + 1, len(want) + 7):
        try:
            return "item %d is %r" % (i, s[i])
        except IndexError:
            pass
    known = [p for p in want if p]
    for got in (list(s), [p for p in s], [b for i, a in enumerate(s) for b in s][:len(known)]):
        d = places_diff(got, known)
        if d:
            return "iterated " + d
    if len([1 for a in s for b in s]) != len(known) ** 2:
        return "nested iteration has %d steps" % len([1 for a in s for b in s])
    for name, default in (("rel", False), ("smo", True)):
        if name == "smo" and q["k"] not in "QC":
            continue
        v = {"unset": default, "yes": True, "no": False}[q[name]]
        if getattr(s, {"rel": "relative", "smo": "smooth"}[name]) is not v:
            return "%s is not %r" % (name, v)
    return None


def seg_one(job):
    from copy import copy
    from svgio import path
    case, index = job
    rng = random.Random(index)
    q = case["q"]
    f = SCALES[index % 4]
    val = {n: [c / f for c in p] for n, p in zip(NAMES[q["k"]], case["places"])}
    cls = {"M": path.Move, "L": path.Line, "Z": path.Close, "Q": path.QuadraticBezier, "C": path.CubicBezier}[q["k"]]
    args = [given(val[n], rng) for n in case["placed"]]
    kw = {n: given(val[n], rng) for n in sorted(q["kw"], key=lambda n: rng.random())}
    for name, short in (("relative", "rel"), ("smooth", "smo")):
        if q[short] != "unset":
            kw[name] = {"yes": rng.choice([True, 1]), "no": rng.choice([False, 0])}[q[short]]
    what = "%s(%s)" % (cls.__name__, ", ".join([repr(a) for a in args] + ["%s=%r" % x for x in kw.items()]))
    s = cls(*args, **kw)
    d = holds(s, case, f)
    if d:
        return "%s has %s" % (what, d)
    c = copy(s)
    d = holds(c, case, f)
    if d or type(c) is not cls:
        return "the copy of %s has %s" % (what, d)
    return None


def path_one(job):
    from svgio.path import Path
    case, index = job
    rng = random.Random(index)
    f = SCALES[index % 4]
    how = case["q"]["how"]
    raw = [sized(g, f) for g in case["raw"]]
    want = [sized(g, f) for g in case["segs"]]
    segs = [mkseg(g) for g in raw]
    kept = None
    if how == "items":
        p = Path(*segs) if len(segs) != 1 else Path(segs[0])
    elif how == "one":
        p = Path(segs[0])
    elif how == "list":
        p = Path(segs)
    elif how == "tuple":
        p = Path(tuple(segs))
    elif how == "path":
        kept = Path(*segs) if len(segs) != 1 else Path(segs[0])
        p = rng.choice([Path, lambda x: x.__copy__()])(kept)
    elif how == "subpath":
        from svgio.path import Line, Move
        pre = [Move((100, 100)), Line((100, 100), (101, 102))] if rng.random() < 0.5 else []
        post = [Move(segs[-1].end, (100, 100)), Line((100, 100), (101, 102))] if rng.random() < 0.5 else []
        p = Path(Path(*(pre + segs + post)).subpath(1 if pre else 0))
    else:
        p = Path(" ".join(g["k"] + " ".join("%r,%r" % tuple(c) for c in g["c"] + ([g["e"]] if g["e"] else [])) for g in raw))
    what = "Path from %s %r" % (how, [mkseg(g) for g in raw])
    d = items_diff([p[i] for i in range(len(p))], want)
    if d:
        return "%s holds %s" % (what, d)
    n = len(want)
    import svgio
    back = eval(repr(p), dict(vars(svgio.path), Point=svgio.Point))
    d = items_diff(back, want)
    if d or type(back) is not Path or not back == p or back != p:
        return "%s: its representation %r reads back as %r (%s)" % (what, repr(p), back, d)
    if kept is not None:
        d = items_diff(kept, want)
        if d or any(a is b for a in p for b in kept):
            return "%s: the first path now has %s" % (what, d or "segments in common")
    if how in ("items", "one", "list", "tuple") and any(a is not b for a, b in zip(p, segs)):
        return "%s holds other segments" % what
    if len(p) != n or len(list(p)) != n or [x is y for x, y in zip(p, (p[i] for i in range(n)))] != [True] * n:
        return "%s: %d items iterate as %r" % (what, len(p), list(p))
    d = items_diff(list(reversed(p))[::-1], want) or items_diff([p[i - n] for i in range(n)], want) or items_diff(p[:], want)
    if d:
        return "%s backwards or from the end: %s" % (what, d)
    for i in (n, n + 3, -n - 1):
        try:
            return "%s has an item %d: %r" % (what, i, p[i])
        except IndexError:
            pass
    for i in range(n):
        s = rng.choice([p[i], mkseg(want[i])])
        if s not in p or p.index(s) != case["first"][i] - 1 or p.count(s) != case["often"][i]:
            return "%s: item %d is in the path %s, at %r, %d times" % (what, i, s in p, p.index(s), p.count(s))
    from svgio.path import Line
    other = Line((1234, 5), (6, 7))
    if other in p or p.count(other):
        return "%s contains %r" % (what, other)
    if n:
        i = rng.randrange(n)
        s = mkseg(want[i])
        p.remove(s)
        d = items_diff(p, [sized(g, f) for g in case["removed"][i]])
        if d:
            return "%s with %r removed holds %s" % (what, s, d)
    return None


def check_P14(check):
    r = check.mc("SegMake", CFG.format(what="Seg", draws=1 if QUICK else 8, inv="InvHeld EmitSeg"))
    decide(check, seg_one, r.prints, lambda c: ("constructed", c["q"]["k"]))
    r = check.mc("SegMake", CFG.format(what="Path", draws=4 if QUICK else 60, inv="InvListed InvRemoved EmitPath"))
    decide(check, path_one, r.prints, lambda c: ("paths from", c["q"]["how"]))
