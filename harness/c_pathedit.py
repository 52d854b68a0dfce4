"""P05, P06, P08, P09, P10: histories of edits (PathEdit.tla) replayed into paths of the code."""
import random
import re
from math import atan2, cos, degrees, hypot, sin, tau

import common
from common import QUICK, SEED, attempt, close, pool_map
from pathproj import KINDS, controls, near, rot_eq

CFG = """SPECIFICATION {spec}
CONSTANTS Depth={depth} Inits="{inits}" Ops={{{ops}}}
INVARIANTS InvJoined InvClosed InvView InvStable InvRuns InvReverse InvDirect InvMarks Emit
"""
NIL = 99


def cfg(spec, depth, inits, ops):
    return CFG.format(spec=spec, depth=depth, inits=inits, ops=",".join('"%s"' % o for o in ops.split()))


MATS = [(1, 0, 0, 1, 3, -1), (0, 1, -1, 0, 0, 0), (-1, 0, 0, 1, 0, 0), (2, 0, 0, 2, 0, 0),
        (0, 1, 1, 0, 5, 2), (1, 0, 0, 1, 0, 0), (1, 0, 0, -2, -4, 0),
        (1, 0, 1, 1, -2, 0), (1, 2, 0, -1, 0, 3)]


def mkseg(g, like=None):
    """A new segment; one ellipse has many pairs of axes, those of `like` are taken if it is the same."""
    from svgio.path import Move, Line, Close, QuadraticBezier, CubicBezier, Arc
    k = g["k"]
    s = tuple(g["s"]) or None
    e = tuple(g["e"]) or None
    c = [tuple(x) for x in g["c"]]
    if k == "M":
        return Move(s, e)
    if k == "L":
        return Line(s, e)
    if k == "Z":
        return Close(s, e)
    if k == "Q":
        return QuadraticBezier(s, c[0], e)
    if k == "C":
        return CubicBezier(s, c[0], c[1], e)
    o, u, v, q = g["a"]
    if isinstance(like, Arc) and not arc_diff(like, g["a"]):
        return Arc(s, e, tuple(o), tuple(like.prx), tuple(like.pry), q * tau / 4)
    u, v = axes(u, v)
    return Arc(s, e, tuple(o), (o[0] + u[0], o[1] + u[1]), (o[0] + v[0], o[1] + v[1]), q * tau / 4)


def axes(u, v):
    """The axes of the ellipse with the conjugate radii u and v."""
    uv = u[0] * v[0] + u[1] * v[1]
    if uv == 0:
        return u, v
    t = atan2(2 * uv, u[0] ** 2 + u[1] ** 2 - v[0] ** 2 - v[1] ** 2) / 2
    return ((u[0] * cos(t) + v[0] * sin(t), u[1] * cos(t) + v[1] * sin(t)),
            (v[0] * cos(t) - u[0] * sin(t), v[1] * cos(t) - u[1] * sin(t)))


def arc_diff(seg, a):
    o, u, v, q = a
    u, v = axes(u, v)
    if not near(seg.center, o, 1):
        return "arc centre %r instead of %r" % (seg.center, o)
    if not close(seg.sweep, q * tau / 4):
        return "arc sweep %r instead of %r quarters" % (seg.sweep, q)
    ru, rv = hypot(*u), hypot(*v)
    rot = degrees(atan2(u[1], u[0]))
    got = (float(seg.rx), float(seg.ry), degrees(float(seg.get_rotation())))
    if close(got[0], ru) and close(got[1], rv) and (ru == rv or rot_eq(got[2], rot)):
        return None
    if close(got[0], rv) and close(got[1], ru) and (ru == rv or rot_eq(got[2], rot + 90)):
        return None
    return "arc radii, rotation %r instead of %r %r %r" % (got, ru, rv, rot)


def seg_diff(seg, g):
    k = KINDS.get(type(seg).__name__)
    if k != g["k"]:
        return "kind %s instead of %s" % (type(seg).__name__, g["k"])
    if not near(seg.start, g["s"], 1):
        return "start %r instead of %r" % (seg.start, g["s"])
    if not near(seg.end, g["e"], 1):
        return "end %r instead of %r" % (seg.end, g["e"])
    for p, q in zip(controls(seg), g["c"]):
        if not near(p, q, 1):
            return "control %r instead of %r" % (p, q)
    if k == "A":
        return arc_diff(seg, g["a"])
    return None


def items_diff(items, segs):
    items = list(items)
    if len(items) != len(segs):
        return "%d segments instead of %d" % (len(items), len(segs))
    for i, (s, g) in enumerate(zip(items, segs)):
        d = seg_diff(s, g)
        if d:
            return "segment %d: %s" % (i, d)
    return None


def mkslice(sl):
    return slice(*[None if x == NIL else x for x in sl])


def written(new):
    """The text that denotes new segments of known ends and an open start, if any does."""
    if any(g["k"] == "A" for g in new) or not new or new[0]["s"]:
        return None
    if any(not g["e"] and not (g["k"] == "Z" and len(new) == 1) for g in new):
        return None
    if any(g["k"] == "Z" for g in new) and len(new) > 1 or new[0]["k"] == "Z" and new[0]["e"]:
        return None
    return " ".join(g["k"] + " ".join("%r,%r" % tuple(q) for q in list(g["c"]) + ([g["e"]] if g["e"] else [])) for g in new)


def perform(p, view, o, rng):
    """Performs one operation; returns (path, view, result)."""
    from svgio import Matrix
    op = o["op"]
    target = view if o["w"] else p
    new = [mkseg(g) for g in o["new"]]
    keep = view if o["w"] else None
    text = written(o["new"]) if op in ("tappend", "tinsert") else written(o["new"]) if rng.random() < 0.3 and (o["sl"][2] == NIL or o["sl"][2] > 0) else None
    if op == "setsl" and any(b["s"] and b["s"] != a["e"] for a, b in zip(o["new"], o["new"][1:])):
        text = None  # a text denotes joined segments
    if op == "iadd" and text == "Z" and any(type(s).__name__ == "Move" and s.end is None for s in p):
        text = None  # a closepath command is not written after a moveto to nowhere
    if op == "tappend":
        p.append(text)
    elif op == "tinsert":
        p.insert(o["i"], text)
    elif text and op == "append":
        p.append(text)
    elif text and op == "extend":
        p.extend(text)
    elif text and op == "insert":
        p.insert(o["i"], text)
    elif text and op == "set":
        target[o["i"]] = text
    elif text and op == "setsl":
        target[mkslice(o["sl"])] = text
    elif op == "append":
        p.append(new[0])
    elif op == "extend":
        p.extend(rng.choice([list, tuple, iter])(new))
    elif op == "iadd":
        before = target
        if text:
            target += text
        elif len(new) == 1 and rng.random() < 0.5:
            target += new[0]
        else:
            from svgio.path import Path
            # several segments are taken as they are, without joining them
            target += Path(*new) if len(new) != 1 else Path(new[0])
        if target is not before:
            raise AssertionError("+= gave another object")
    elif op == "insert":
        p.insert(o["i"], new[0])
    elif op == "set":
        target[o["i"]] = new[0]
    elif op == "del":
        del target[o["i"]]
    elif op == "pop":
        if o["i"] == -1 and rng.random() < 0.5:
            p.pop()
        else:
            p.pop(o["i"])
    elif op == "clear":
        p.clear()
    elif op == "direct":
        p.direct_close()
    elif op == "get":
        return p, view, target[o["i"]]
    elif op == "getsl":
        return p, view, list(target[mkslice(o["sl"])])
    elif op == "setsl":
        target[mkslice(o["sl"])] = new
    elif op == "delsl":
        del target[mkslice(o["sl"])]
    elif op == "transform":
        m = Matrix(*MATS[o["i"] - 1])
        if o["w"]:
            view *= m
            keep = view
        else:
            p @= m
    elif op == "segmap":
        m = Matrix(*MATS[o["sl"][0] - 1])
        p[o["i"] - 1] *= m
    elif op == "reverse":
        target.reverse()
    elif op == "open":
        keep = p.subpath(o["i"] - 1)
    elif op == "measure":
        measure_some(p, o["i"])
        keep = view
    else:
        raise common.MachineryError("operation " + op)
    return p, keep, None


NUM = re.compile(r"[-+]?[0-9.]+(?:[eE][-+]?[0-9]+)?")


def text_form(t):
    return (NUM.sub("#", t), [float(x) for x in NUM.findall(t)])


def same_value(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if a != a and b != b:
        return True
    return close(a, b, 1e-6)


POS = (0.0, 0.137, 0.391, 0.5531, 0.8713, 1.0)


def measures(p):
    """Everything that is measured of a path, as outcomes."""
    def subs(f):
        return [f(s) for s in p.as_subpaths()]

    def pts(x):
        return None if x is None else [[float(q[0]), float(q[1])] for q in x]

    def pt1(q):
        return None if q is None else [float(q[0]), float(q[1])]

    def subpath_length(s):
        from svgio.path import Path
        return float(Path(s).length())
    return dict(
        length=attempt(lambda: float(p.length())),
        points=attempt(lambda: [pt1(p.point(t)) for t in POS]),
        npoints=attempt(lambda: pts(p.npoint(list(POS)))),
        text=attempt(lambda: list(text_form(p.d(relative=False, smooth=False)))),
        rtext=attempt(lambda: list(text_form(p.d(relative=True, smooth=False)))),
        subtexts=attempt(lambda: subs(lambda s: list(text_form(s.d(relative=False, smooth=False))))),
        sublengths=attempt(lambda: subs(subpath_length)),
        boxes=attempt(lambda: subs(lambda s: s.bbox())),
    )


def measure_some(p, i):
    if i == 0:
        attempt(lambda: p.length())
    elif i == 1:
        attempt(lambda: p.npoint([0.2, 0.7]))
    elif i == 2:
        attempt(lambda: p.point(0.3))
    elif i == 3:
        attempt(lambda: p.d())
        attempt(lambda: str(p.subpath(0)))
    elif i == 4:
        attempt(lambda: [s.bbox() for s in p.as_subpaths()])
        attempt(lambda: p.length())
    else:
        measures(p)


def measure_diff(got, want):
    for k in want:
        a, b = got[k], want[k]
        if a[0] != b[0]:
            return "%s: %r instead of %r" % (k, a, b)
        if a[0] == "ok" and not same_value(a[1], b[1]):
            return "%s: %r instead of %r" % (k, a[1], b[1])
        if a[0] == "exc" and a[1] != b[1]:
            return "%s: %r instead of %r" % (k, a, b)
    return None


def exact_measures(segs):
    """What the specification alone says of a path of straight lines."""
    if any(g["k"] not in "MLZ" or not g["e"] or (i and not g["s"]) for i, g in enumerate(segs)):
        return None
    if segs and not segs[0]["s"] and segs[0]["k"] != "M":
        return None
    return sum(hypot(g["e"][0] - g["s"][0], g["e"][1] - g["s"][1]) for g in segs if g["k"] in "LZ")


def describe(case, upto):
    def seg(g):
        return g["k"] + str(tuple(g["s"])) + "".join(str(tuple(c)) for c in g["c"]) + str(tuple(g["e"]))
    out = ["[" + " ".join(seg(g) for g in case["init"]) + "]"]
    for h in case["hist"][:upto]:
        o = h["o"]
        out.append("%s%s(%s%s%s)" % ("view." if o["w"] else "", o["op"], o["i"], "" if o["sl"] == [NIL] * 3 else " %s" % o["sl"],
                                    "".join(" " + seg(g) for g in o["new"])))
    return " ".join(out)


def replay(case, index, each=None, mode="all"):
    """Runs one history; returns (step, what) of the first difference or None."""
    from svgio.path import Path
    rng = random.Random(index)

    def start():
        segs = [mkseg(g) for g in case["init"]]
        return Path(segs) if index % 2 else Path(tuple(segs))
    o = attempt(start)
    if o[0] != "ok":
        return 0, "building the path raised %s %s" % o[1:]
    p, view = o[1], None
    d = attempt(items_diff, p, case["init"])
    if d[0] != "ok" or d[1]:
        return 0, "built: %s" % (d[1],)
    for n, h in enumerate(case["hist"], 1):
        o = h["o"]
        r = attempt(perform, p, view, o, rng)
        name = ("view " if o["w"] else "") + o["op"]
        if h["res"] == "ok":
            if r[0] != "ok":
                return n, "%s raised %s %s" % (name, r[1], r[2])
            p, view, got = r[1]
        elif r[0] == "ok":
            return n, "%s should raise %s" % (name, h["res"])
        elif r[1] not in (h["res"],) and not (r[1] in ("IndexError", "ValueError") and h["res"] in ("IndexError", "ValueError")):
            return n, "%s raised %s instead of %s" % (name, r[1], h["res"])
        d = attempt(items_diff, p, h["segs"])
        if d[0] != "ok" or d[1]:
            return n, "after %s: %s" % (name, d[1])
        if h["res"] == "ok" and o["op"] == "get":
            if got is not list(p)[h["sel"][0]]:
                return n, "%s returned another segment" % name
        if h["res"] == "ok" and o["op"] == "getsl":
            items = list(p)
            if len(got) != len(h["sel"]) or any(x is not items[i] for x, i in zip(got, h["sel"])):
                return n, "%s returned other segments" % name
        d = attempt(shape_diff, p, view, h, n)
        if d[0] != "ok" or d[1]:
            return n, "after %s: %s" % (name, d[1:] if d[0] != "ok" else d[1])
        if each:
            d = attempt(each, p, view, h, n, case)
            if d[0] != "ok" or d[1]:
                return n, "after %s: %s" % (name, d[1:] if d[0] != "ok" else d[1])
    return None


def shape_diff(p, view, h, n):
    """Length, iteration and indexing agree; so do the window's."""
    items = list(p)
    segs = h["segs"]
    if len(p) != len(segs) or [p[i] for i in range(len(p))] != items and any(p[i] is not items[i] for i in range(len(p))):
        return "length or indexing disagrees with iteration"
    for i in range(len(items)):
        if p[i - len(items)] is not items[i]:
            return "negative index %d" % (i - len(items))
    if h["view"]:
        lo, hi = h["view"]
        win = items[lo - 1:hi]
        got = list(view)
        if len(view) != len(win) or len(got) != len(win) or any(a is not b for a, b in zip(got, win)):
            return "the subpath covers %d segments instead of %d from %d" % (len(got), len(win), lo - 1)
        for i in range(len(win)):
            if view[i] is not win[i] or view[i - len(win)] is not win[i]:
                return "subpath index %d" % i
    return None


def runs_diff(p, view, h, n, case):
    """The partition into subpaths, and what is told about each."""
    if n != len(case["hist"]):
        return None
    items = list(p)
    subs = list(p.as_subpaths())
    runs = case["runs"]
    if not runs:
        return None
    if len(subs) != len(runs) or p.count_subpaths() != len(runs):
        return "%d subpaths instead of %d" % (len(subs), len(runs))
    for k, (s, (lo, hi)) in enumerate(zip(subs, runs)):
        win = items[lo - 1:hi]
        for t in (s, p.subpath(k), p.subpath(k - len(runs))):
            got = list(t)
            if len(got) != len(win) or len(t) != len(win) or any(a is not b for a, b in zip(got, win)):
                return "subpath %d has other segments" % k
        bad = window_measures(s, h["segs"][lo - 1:hi])
        if bad:
            return "subpath %d: %s" % (k, bad)
    return None


def whole(segs):
    return all(g["e"] and (g["s"] or (i == 0 and g["k"] == "M")) for i, g in enumerate(segs))


def window_measures(s, segs):
    """Text, length and bounds of a subpath against its run alone."""
    from svgio.path import Path
    if not whole(segs):
        return None
    fresh = Path([mkseg(g, a) for g, a in zip(segs, list(s))])
    # a closepath of the run returns to the run's moveto, or to where the path says
    if items_diff(fresh, segs):
        return None
    if text_form(s.d(relative=False, smooth=False))[0] != text_form(fresh.d(relative=False, smooth=False))[0]:
        return "text %r instead of %r" % (s.d(), fresh.d())
    if not same_value(list(text_form(s.d(relative=False, smooth=False))), list(text_form(fresh.d(relative=False, smooth=False)))):
        return "text %r instead of %r" % (s.d(), fresh.d())
    if not close(Path(s).length(), fresh.length()):
        return "length %r instead of %r" % (Path(s).length(), fresh.length())
    straight = all(g["k"] in "MLZ" for g in segs)
    box = s.bbox()
    if straight:
        pts = [q for g in segs if g["k"] != "M" for q in (g["s"], g["e"])]
        want = None if not pts else (min(q[0] for q in pts), min(q[1] for q in pts), max(q[0] for q in pts), max(q[1] for q in pts))
    else:
        boxes = [mkseg(g, a).bbox() for g, a in zip(segs, list(s)) if g["k"] != "M"]
        want = (min(b[0] for b in boxes), min(b[1] for b in boxes), max(b[2] for b in boxes), max(b[3] for b in boxes))
    if not same_value(box, want):
        return "bounds %r instead of %r" % (box, want)
    return None


def fresh_diff(p, view, h, n, case):
    """All measurements against those of a path built afresh from the specification's segments."""
    from svgio.path import Path
    if h["o"]["op"] not in ("measure", "transform", "reverse") and n != len(case["hist"]) and n % 3:
        return None
    fresh = Path([mkseg(g, a) for g, a in zip(h["segs"], list(p))])
    d = measure_diff(measures(p), measures(fresh))
    if d:
        return d
    want = exact_measures(h["segs"])
    if want is not None and not close(p.length(), want):
        return "length %r instead of %r" % (p.length(), want)
    return None


def backwards(case, index):
    """Single segments run backwards."""
    from copy import copy
    from svgio.path import Path
    final = case["hist"][-1]["segs"] if case["hist"] else case["init"]
    for g, r in zip(final, case["rev"]):
        if r["k"] == "?":
            continue
        a = mkseg(g)
        b = mkseg(g)
        b.reverse()
        d = seg_diff(b, r)
        if d:
            return "reversed segment: %s" % d
        if g["k"] == "M":
            continue
        for t in (0.0, 0.2, 0.5, 0.83, 1.0):
            x, y = b.point(t), a.point(1 - t)
            if not (close(x.x, y.x, 1e-6) and close(x.y, y.y, 1e-6)):
                return "reversed %s is elsewhere at %s: %r instead of %r" % (g["k"], t, x, y)
        if not close(a.length(), b.length()):
            return "reversing changed the length"
        if not same_value(a.bbox(), b.bbox()):
            return "reversing changed the bounds"
        b.reverse()
        d = seg_diff(b, g)
        if d:
            return "reversed twice: %s" % d
    return None


def outline(p):
    """Length and bounds of what is drawn."""
    boxes = [s.bbox() for s in p.as_subpaths()]
    boxes = [b for b in boxes if b]
    box = None if not boxes else [min(b[0] for b in boxes), min(b[1] for b in boxes), max(b[2] for b in boxes), max(b[3] for b in boxes)]
    return [float(p.length()), box]


class Same:
    """Reversal keeps length and bounds."""

    def __init__(self):
        self.last = None

    def __call__(self, p, view, h, n, case):
        before, self.last = self.last, outline(p)
        if h["o"]["op"] == "reverse" and before is not None and not same_value(before, self.last):
            return "length and bounds became %r from %r" % (self.last, before)
        return None


def point_diff(name, got, want):
    if not want:
        return None if got is None else "%s is %r instead of none" % (name, got)
    if got is None or not (close(got[0], want[0], 1e-9) and close(got[1], want[1], 1e-9)):
        return "%s is %r instead of %r" % (name, got, want)
    return None


NAMES = ("first_point", "current_point", "z_point", "smooth_point")


def marks_diff(p, view, h, n, case):
    for name, want in zip(NAMES, h["m"]):
        got = getattr(p, name)
        bad = point_diff(name, got, want)
        if bad:
            return bad
    if n == len(case["hist"]) and whole(h["segs"]):
        got = list(p.as_points())
        if len(got) != len(case["pts"]):
            return "%d defining points instead of %d" % (len(got), len(case["pts"]))
        for i, (a, b) in enumerate(zip(got, case["pts"])):
            bad = point_diff("defining point %d" % i, a, b)
            if bad:
                return bad
    return None


def run(check, cases, kind):
    jobs = [(c, i, kind) for i, c in enumerate(cases)]
    for (c, i, _), res in zip(jobs, pool_map(one, jobs)):
        check.validated += 1
        for h in c["hist"]:
            check.tally("operations", ("view." if h["o"]["w"] else "") + h["o"]["op"])
        if res:
            check.violation("%s: %s" % (describe(c, res[0]), res[1]), dict(case=c, step=res[0]))
    for c in cases[-3:]:
        check.sample(describe(c, 99)[:400])


def one(job):
    case, index, kind = job
    each = dict(P08=fresh_diff, P09=runs_diff, P10=None, P13=marks_diff).get(kind)
    if kind == "P10":
        each = Same()
    bad = replay(case, index, each)
    if not bad and kind == "P10":
        q = attempt(backwards, case, index)
        if q[0] != "ok" or q[1]:
            bad = (99, "%s" % (q[1:],))
    return bad


def histories(check, spec, depth, inits, ops, sim=None):
    if sim is None:
        r = check.mc("PathEdit", cfg(spec, depth, inits, ops))
        check.count("histories_enumerated", len(r.prints))
    else:
        r = check.mc("PathEdit", cfg(spec, depth, inits, ops), simulate=sim, depth=depth + 2)
        check.count("histories_random", len(r.prints))
    return r.prints


EDITS = "tappend tinsert append insert set del extend iadd setsl delsl pop clear"


def check_P05(check):
    cases = histories(check, "SSpec", 2, "partial", "append insert set del setsl delsl reverse")
    ops = "append insert set del extend iadd tappend tinsert setsl delsl pop reverse segmap transform"
    cases += histories(check, "RSpec", 6 if QUICK else 12, "partial", ops, 4000 if QUICK else 30000)
    cases += histories(check, "RSpec", 6 if QUICK else 12, "whole", ops + " reverse open", 3000 if QUICK else 30000)
    run(check, cases, "P05")


def check_P06(check):
    cases = histories(check, "SSpec", 2, "whole", "append insert set del get getsl setsl delsl")
    cases += histories(check, "RSpec", 7 if QUICK else 14, "whole", EDITS + " get getsl", 4000 if QUICK else 40000)
    cases += histories(check, "RSpec", 7 if QUICK else 14, "partial", EDITS + " get getsl", 3000 if QUICK else 30000)
    run(check, cases, "P06")


def check_P08(check):
    ops = EDITS + " direct transform segmap reverse open measure"
    cases = histories(check, "RSpec", 6 if QUICK else 12, "whole", "transform reverse open measure append del segmap", 1000 if QUICK else 12000)
    cases += histories(check, "RSpec", 6 if QUICK else 12, "whole", ops, 2000 if QUICK else 24000)
    cases += histories(check, "RSpec", 5 if QUICK else 12, "partial", "append append insert extend iadd transform transform segmap measure reverse", 2500 if QUICK else 24000)
    run(check, cases, "P08")


def check_P09(check):
    cases = histories(check, "SSpec", 2, "whole", "open set del iadd get getsl setsl delsl transform reverse")
    ops = "open iadd set del get getsl setsl delsl transform reverse"
    cases += histories(check, "RSpec", 7 if QUICK else 14, "whole", ops, 5000 if QUICK else 50000)
    cases += histories(check, "RSpec", 7 if QUICK else 14, "partial", ops + " append insert", 2000 if QUICK else 20000)
    run(check, cases, "P09")


def check_P13(check):
    ops = EDITS + " direct"
    cases = histories(check, "RSpec", 4 if QUICK else 10, "whole", ops + " reverse", 4000 if QUICK else 40000)
    cases += histories(check, "RSpec", 4 if QUICK else 10, "partial", ops, 3000 if QUICK else 30000)
    cases += histories(check, "RSpec", 3, "whole", "direct measure del tappend", 3000 if QUICK else 20000)
    run(check, cases, "P13")


def check_P10(check):
    cases = histories(check, "RSpec", 4 if QUICK else 8, "whole", "reverse open transform", 5000 if QUICK else 50000)
    run(check, cases, "P10")
