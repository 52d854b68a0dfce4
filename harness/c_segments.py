"""P11, P12, G12: single segments as text, equality, closest points (SegText.tla, PathEq.tla, Nearest.tla)."""
import random
import re

import common
from common import QUICK, attempt, close, pool_map
from c_pathedit import items_diff, mkseg, seg_diff

SCALES = (1, 8, 1.0 / 1024, 3)


def sized(g, f):
    """A segment of the specification in other units."""
    def p(x):
        return [c / f for c in x]
    a = g["a"]
    return dict(k=g["k"], s=p(g["s"]), e=p(g["e"]), c=[p(c) for c in g["c"]], a=[p(a[0]), p(a[1]), p(a[2]), a[3]] if a else a)


# ---- P11: text of a single segment -------------------------------------------------------------
TEXT = """SPECIFICATION Spec
CONSTANTS Draws={draws} Inits="whole"
INVARIANTS InvReads Emit
"""
WORD = re.compile(r"[A-Za-z]|[-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][-+]?[0-9]+)?")


def words(t):
    if set(WORD.sub("", t)) - set(" ,"):
        raise AssertionError("stray characters in %r" % t)
    return [w if w.isalpha() else float(w) for w in WORD.findall(t)]


def command(c, shape, p, f):
    out = [c]
    if shape:
        out += [shape[0] / f, shape[1] / f, ("turn", shape[2]), shape[3], shape[4]]
    for q in p:
        out += [q[0] / f, q[1] / f]
    return out


def words_diff(got, want, f):
    if len(got) != len(want):
        return "instead of %r" % (want,)
    for i, (a, b) in enumerate(zip(got, want)):
        if isinstance(a, str) or isinstance(b, str):
            if a != b:
                return "instead of %r" % (want,)
        elif isinstance(b, tuple):
            # circles may be given with any rotation, ellipses along their axes
            if not (want[1] == want[2] or close(a % 180.0, 0, 1e-5) or close(a % 180.0, 180, 1e-5)):
                return "instead of %r" % (want,)
        elif not close(a, b, 6e-6 if want[0] in "aA" and i < 3 else 1e-9):
            return "instead of %r" % (want,)
    return None


def text_one(job):
    import svgio
    from svgio.path import Path, Move
    from svgio import Point, path  # noqa
    case, index = job
    f = SCALES[index % 4]
    q = case["q"]
    s = mkseg(sized(case["g"], f))
    s.relative, s.smooth = q["rel"], q["smo"]
    before = sized(case["g"], f)
    flag = {"none": None, "true": True, "false": False}
    kw = {}
    cur = case["cur"]
    if cur or index % 2:
        at = None
        if cur:
            x, y = cur[0] / f, cur[1] / f
            at = (Point(x, y), (x, y), complex(x, y))[index % 3]
        kw["current_point"] = at
    if q["ask"] != "none" or index % 2:
        kw["relative"] = flag[q["ask"]]
    if q["asks"] != "none" or index % 2:
        kw["smooth"] = flag[q["asks"]]
    text = s.d(**kw)
    what = "%r (relative=%s, smooth=%s) .d(%s) is %r " % (s, q["rel"], q["smo"], ", ".join("%s=%r" % x for x in kw.items()), text)
    cmd = case["cmd"]
    bad = words_diff(words(text), command(cmd["c"], cmd["shape"], cmd["p"], f), f)
    if bad:
        return what + bad
    d = seg_diff(s, before)
    if d:
        return what + "and left the segment with " + d
    # the segment on its own
    alone = case["alone"]
    text = str(s)
    got = words(text)
    if alone["move"]:
        head = got[:3]
        if head[0] not in ("M", "m") or not (close(head[1], alone["move"][0] / f, 1e-9) and close(head[2], alone["move"][1] / f, 1e-9)):
            return "%r is written %r" % (s, text)
        got = got[3:]
    bad = words_diff(got, command(alone["c"], alone["shape"], alone["p"], f), f)
    if bad:
        return "%r is written %r %s" % (s, text, bad)
    if q["k"] != "Z" and alone["move"]:
        back = list(Path(text))
        if len(back) != 2 or type(back[0]) is not Move:
            return "%r, written %r, reads back as %r" % (s, text, back)
        if q["k"] != "A":
            d = seg_diff(back[1], before)
            if d:
                return "%r, written %r, reads back with %s" % (s, text, d)
    names = dict(vars(svgio.path), Point=Point)
    back = eval(repr(s), names)
    d = seg_diff(back, before)
    if d or not (back == s) or back != s:
        return "the representation %r reads back as %r" % (repr(s), back)
    return None


def wrapped(job):
    fn, case, index = job
    r = attempt(fn, (case, index))
    return r[1] if r[0] == "ok" else "raised %s %s" % r[1:]


def decide(check, fn, prints, tally=None):
    jobs = [(fn, c, i) for i, c in enumerate(prints)]
    for (_, c, i), res in zip(jobs, pool_map(wrapped, jobs)):
        check.validated += 1
        if tally:
            check.tally(*tally(c))
        if res:
            check.violation("%s   [%s]" % (res, c.get("how", "")), dict(case=c, index=i))
    for c in prints[-3:]:
        check.sample(c)


def check_P11(check):
    r = check.mc("SegText", TEXT.format(draws=12 if QUICK else 120))
    decide(check, text_one, r.prints, lambda c: ("commands", c["cmd"]["c"]))


# ---- P12: equality ------------------------------------------------------------------------------
EQ = """SPECIFICATION Spec
CONSTANTS Runs2=3 Inits="whole"
INVARIANTS InvSame InvOther Emit
"""


def build(segs, f, flags=0, whirl=0):
    from svgio import Angle
    out = []
    for i, g in enumerate(segs):
        s = mkseg(sized(g, f))
        if g["k"] == "A" and whirl:
            s.sweep = Angle(s.sweep)
        if flags:
            s.relative = bool((flags + i) % 2)
            s.smooth = bool((flags + i) % 3)
        out.append(s)
    return out


def whole_text(segs, f, index):
    def num(x):
        return repr(float(x)) if index % 2 else "%.17g" % x
    return " ".join(g["k"] + " ".join("%s,%s" % (num(q[0] / f), num(q[1] / f)) for q in g["c"] + ([] if g["k"] == "Z" else [g["e"]])) for g in segs)


def path_of(segs):
    from svgio.path import Path
    return Path(*segs)


def as_subpath(segs, rng):
    """The last subpath of a larger path."""
    from svgio.path import Move, Line, Path
    pre = [Move((100, 100)), Line((100, 100), (101, 102))] if rng.random() < 0.7 else []
    p = Path(*(pre + segs))
    return p.subpath(-1)


def relation(x, y):
    """== and != both ways."""
    a, b, c, d = x == y, y == x, x != y, y != x
    for v in (a, b, c, d):
        if v is not True and v is not False:
            return "a comparison gave %r" % (v,)
    if a == c or b == d or a != b:
        return "== gives %s and %s the other way round, != gives %s and %s" % (a, b, c, d)
    return a


def eq_one(job):
    from svgio.path import Path
    case, index = job
    rng = random.Random(index)
    f = (1, 8, 2.0 ** 14, 0.125, 2.0 ** 36)[index % 5]
    flags = 1 + index % 4 if case["how"] != "same" else 0
    want = case["eq"]

    def forms(which, flags):
        segs = case[which]
        k = "ab".index(which)
        out = [("path", path_of(build(segs, f, flags, index % 3)))]
        if case["runs"][k] == 1 and segs and segs[0]["k"] == "M":
            out.append(("subpath", as_subpath(build(segs, f, flags, index % 2), rng)))
        if case["text"][k]:
            out.append(("text", whole_text(segs, f, index)))
        return out
    left, right = forms("a", 0), forms("b", flags)
    for n, x in left:
        for m, y in right:
            if n == "text" and m == "text":
                continue
            r = relation(x, y)
            if r is not want:
                return "a %s and a %s that are %s: %s; %r and %r" % (n, m, "equal" if want else "different", r, x, y)
    if case["how"] == "flags":
        # within the tolerance
        for s in right[0][1]:
            for i in range(len(s)):
                if s[i] is not None:
                    s[i].x += 4e-13
                    s[i].y -= 4e-13
        r = relation(left[0][1], right[0][1])
        if r is not True:
            return "paths that differ by 4e-13: %s; %r" % (r, right[0][1])
    p, q = left[0][1], right[0][1]
    for i, w in enumerate(case["segs"]):
        r = relation(p[i], q[i])
        if r is not w:
            return "segments that are %s: %s; %r and %r" % ("equal" if w else "different", r, p[i], q[i])
    for x in (p, p[0]):
        for other in (None, 5, [], object()):
            if relation(x, other) is not False:
                return "%r equals %r" % (x, other)
    d = items_diff(path_of([s * ("scale(%r)" % f) for s in p]) if f != 1 else p, case["a"])
    if d:
        return "comparing changed an operand: %s" % d
    return None


def check_P12(check):
    r = check.mc("PathEq", EQ, simulate=8000 if QUICK else 100000, depth=3)
    decide(check, eq_one, r.prints, lambda c: ("changes", c["how"] + (" equal" if c["eq"] else " different")))


# ---- G12: closest points -------------------------------------------------------------------------
NEAR = """SPECIFICATION {spec}
CONSTANTS Coords={{{coords}}} N=0 R={r}
INVARIANTS InvClosest InvFoot Emit
"""


def near_one(job):
    from svgio import Point
    from svgio.path import Close, Line
    case, index = job
    f, ox, oy = ((1, 0, 0), (8, -0.5, 3), (1.0 / 1024, 7, 0), (0.5, 1000, -1000), (2.0 ** 31, 0, 0))[index % 5]
    at = lambda p: (p[0] / f + ox, p[1] / f + oy)
    s = (Line, Close)[index % 2](at(case["a"]), at(case["b"]))
    x, y = at(case["p"])
    p = (Point(x, y), (x, y), [x, y])[index % 3]
    tol = 1e-12 * abs(ox) + 1e-9 / f * max(map(abs, case["a"] + case["b"] + case["p"]))
    for how, want in (((), "bound"), ((True,), "bound"), ((False,), "free")):
        w = case[want]
        w = at((w[0] / w[2], w[1] / w[2]))
        got = s.closest_segment_point(p, *how) if index % 7 or not how else s.closest_segment_point(p, respect_bounds=how[0])
        if type(got) is not Point or not (abs(got.x - w[0]) <= tol and abs(got.y - w[1]) <= tol):
            return "the point of %r closest to %r%s is %r instead of %r" % (s, p, " (bounds %s)" % how if how else "", got, w)
        if got is s.start or got is s.end:
            return "the closest point is a part of the line"
    if (s.start.x, s.start.y, s.end.x, s.end.y) != at(case["a"]) + at(case["b"]) or tuple(p) != (x, y):
        return "asking for the closest point changed something"
    return None


def check_G12(check):
    prints = check.mc("Nearest", NEAR.format(spec="GSpec", coords="0,1,2" if QUICK else "0,1,2,4", r=1)).prints
    for r in (3, 12, 200):
        prints += check.mc("Nearest", NEAR.format(spec="RSpec", coords="0", r=r), simulate=300 if QUICK else 4000, depth=10).prints
    decide(check, near_one, prints)
