"""T01: matrix algebra (MatrixOps.tla).  T02: transform texts (TransformText.tla)."""
import random
from copy import copy
from itertools import islice
from math import atan2, cos, degrees, pi, sin, tau

import common
from common import QUICK, attempt, close, pool_map

T01 = """SPECIFICATION Spec
CONSTANTS Steps={steps}
INVARIANTS InvGroup InvAssoc InvAct Emit
"""


def coeffs(m):
    return [m.a, m.b, m.c, m.d, m.e, m.f]


def exact(m):
    return [x / m[6] for x in m[:6]]


def same(m, want, tol=1e-6):
    got, want = coeffs(m), exact(want)
    s = max(1.0, *map(abs, want))
    return all(not isinstance(g, str) and abs(g - w) <= tol * s for g, w in zip(got, want))


def rat(r):
    return r[0] / r[1] if r[1] != 1 else r[0]


def angle(a, rng):
    """An angle of which the direction (x, y, r) or the tangent (p, q) is known."""
    th = atan2(a[1], a[0]) if len(a) == 3 else atan2(a[0], a[1])
    return th + rng.choice([0, 0, 0, tau, -tau]) + (rng.choice([0, 0, pi, -pi]) if len(a) == 2 else 0)


def arguments(o, rng):
    """The arguments of an operation for the methods of a matrix."""
    op, args, at = o["op"], o["args"], o["at"]
    if op == "cat":
        return list(exact(args[0]))
    if op in ("rotate", "skew", "skew_x", "skew_y"):
        out = [angle(a, rng) for a in args]
    else:
        out = [rat(a) for a in args]
    if at:
        if op == "scale" and len(out) == 1:
            out.append(rng.choice([None, out[0]]))
        if op == "skew" and len(out) == 1:
            out.append(0)
        out += [rat(a) if a[0] or rng.random() < 0.7 else None for a in at]
        if len(at) == 1 and rng.random() < 0.5:
            out.append(rng.choice([0, 0.0, None]))
    return out


def points_ok(m, h, probe, rng):
    from svgio.basic import Point
    x = [c / h["p"][2] for c in h["p"][:2]]
    s = max(1.0, *map(abs, exact(h["ms"][0])))

    def near(p, w):
        return abs(p[0] - w[0]) <= 1e-6 * s and abs(p[1] - w[1]) <= 1e-6 * s
    for make in (Point, tuple, lambda p: Point(*p)):
        p = make(probe)
        got = m.point_in_matrix_space(p)
        if not near(got, x) or tuple(p) != probe:
            return "point_in_matrix_space(%r) is %r instead of %r" % (probe, got, x)
    for p in (Point(*probe), list(probe)):
        got = m.transform_point(p)
        if not near(got, x):
            return "transform_point(%r) is %r instead of %r" % (probe, got, x)
    v = [c / h["v"][2] for c in h["v"][:2]]
    for p in (Point(*probe), list(probe)):
        got = m.transform_vector(p)
        if not near(got, v):
            return "transform_vector(%r) is %r instead of %r" % (probe, got, v)
    got = m.vector().point_in_matrix_space(probe)
    if not near(got, v):
        return "vector() maps %r to %r instead of %r" % (probe, got, v)
    for got in (Point(*probe) * m, Point(*probe).matrix_transform(m)):
        if not near(got, x):
            return "the point %r is mapped to %r instead of %r" % (probe, got, x)
    p = Point(*probe)
    p *= m
    if not near(p, x):
        return "the point %r is mapped to %r instead of %r" % (probe, p, x)
    if h["inv"]:
        w = [c / h["inv"][2] for c in h["inv"][:2]]
        if max(map(abs, w)) < 1e4:
            got = m.point_in_inverse_space(probe)
            if not (close(got[0], w[0], 1e-4) and close(got[1], w[1], 1e-4)):
                return "point_in_inverse_space(%r) is %r instead of %r" % (probe, got, w)
    e = exact(h["ms"][0])
    if not close(m.determinant, e[0] * e[3] - e[1] * e[2], 1e-5 * s):
        return "determinant %r" % m.determinant
    return None


def history(job):
    from svgio.basic import Matrix
    hist, index = job
    rng = random.Random(index)
    ms = [Matrix(), Matrix.identity()]
    for n, h in enumerate(hist):
        w, o, kind = h["which"] - 1, h["o"], h["kind"]
        m, k = ms[w], ms[1 - w]
        if kind in ("post", "pre"):
            args = arguments(o, rng)
            if o["op"] == "cat" and rng.random() < 0.5:
                args = [Matrix(*args)]
            getattr(m, kind + "_" + o["op"])(*args)
        elif kind in ("post_text", "pre_text"):
            e = Matrix(text_of(o, rng))
            if kind == "post_text":
                if rng.random() < 0.5:
                    m *= text_of(o, rng)
                else:
                    m.post_cat(text_of(o, rng))
            else:
                m.pre_cat(text_of(o, rng))
            ms[w] = m
        elif kind == "set":
            args = arguments(o, rng)
            ms[w] = Matrix(*args) if o["op"] == "cat" else getattr(Matrix, o["op"])(*args)
        elif kind in ("imul", "imatmul"):
            if kind == "imul":
                m *= k
            else:
                m @= k
            ms[w] = m
        elif kind == "mul":
            ms[w] = m * k
        elif kind == "matmul":
            ms[w] = m @ k
        elif kind == "rmul":
            ms[w] = k * m
        elif kind == "self":
            m *= m
            ms[w] = m
        elif kind == "post_cat":
            m.post_cat(k)
        elif kind == "pre_cat":
            m.pre_cat(k)
        elif kind == "inverse":
            m.inverse()
        elif kind == "invert":
            ms[w] = ~m
            if not same(m, hist[n - 1]["ms"][w] if n else [1, 0, 0, 1, 0, 0, 1]):
                return "step %d: ~ changed its operand" % n
        elif kind == "reset":
            m.reset()
        elif kind == "copy":
            ms[w] = copy(k)
        elif kind == "construct":
            ms[w] = Matrix(k)
        elif kind == "vector":
            ms[w] = k.vector()
        for i in (0, 1):
            if not same(ms[i], h["ms"][i]):
                return "step %d (%s %s on %d): matrix %d is %r instead of %r" % (n, kind, o, w, i, ms[i], exact(h["ms"][i]))
            if [ms[i][j] for j in range(6)] != coeffs(ms[i]) or len(ms[i]) != 6:
                return "the items of %r are %r" % (ms[i], [ms[i][j] for j in range(6)])
            if [ms[i].value_scale_x(), ms[i].value_scale_y(), ms[i].value_trans_x(), ms[i].value_trans_y()] != [coeffs(ms[i])[k] for k in (0, 3, 4, 5)]:
                return "the values of %r are wrong" % ms[i]
            if list(islice(ms[i], 9)) != coeffs(ms[i]):
                return "iterating %r gives %r" % (ms[i], list(islice(ms[i], 9)))
            if not same(Matrix(tuple(islice(ms[i], 6))), h["ms"][i]):
                return "made from its items %r is %r" % (ms[i], Matrix(tuple(ms[i])))
        # the exact values go on, so that rounding does not add up
        if rng.random() < 0.3:
            i = rng.randrange(2)
            ms[i] = Matrix(9, 9, 9, 9, 9, 9)
            for j, x in enumerate(exact(h["ms"][i])):
                ms[i][j] = x
            if not same(ms[i], h["ms"][i], 1e-12):
                return "item assignment gives %r" % ms[i]
        r = points_ok(ms[0], h, (3, -2), rng)
        if r:
            return "step %d (%s %s): %s" % (n, kind, o, r)
        e = [exact(x) for x in h["ms"]]
        a, b = Matrix(*e[0]), Matrix(*e[1])
        eq = h["ms"][0] == h["ms"][1]
        if (a == b) is not eq or (a != b) is eq:
            return "%r == %r is %r" % (a, b, a == b)
        if a.is_identity() is not (h["ms"][0] == [1, 0, 0, 1, 0, 0, 1]):
            return "%r.is_identity() is %r" % (a, a.is_identity())
    return None


# ---- texts
NAMES = dict(translate="translate", translate_x="translatex", translate_y="translatey", scale="scale", scale_x="scalex",
             scale_y="scaley", rotate="rotate", skew="skew", skew_x="skewx", skew_y="skewy", cat="matrix")


def number(x, rng):
    x = float(x)
    s = repr(x)
    k = rng.randrange(6)
    if x == int(x) and abs(x) < 1e9:
        s = rng.choice([str(int(x)), s, "%.3f" % x])
        if k == 0 and x:
            s = "%de-1" % int(x * 10)
        if k == 1:
            s = "%.1fe0" % x
    elif k == 0:
        s = "%.17e" % x
    elif k == 1 and s.startswith(("0.", "-0.")):
        s = s.replace("0.", ".", 1)
    if k == 2 and x >= 0:
        s = "+" + s
    return s


def angle_text(a, rng):
    th = angle(a, rng)
    unit = rng.choice(["deg", "grad", "rad", "turn", "", ""])
    v = {"deg": degrees(th), "": degrees(th), "grad": th / tau * 400, "rad": th, "turn": th / tau}[unit]
    r = round(v, 6)
    return number(r if abs(v - r) < 1e-12 else v, rng) + unit


def case(name, rng):
    k = rng.randrange(4)
    if k == 0:
        return name.upper()
    if k == 1:
        return name[:-1] + name[-1].upper()
    return "".join(c.upper() if rng.random() < 0.3 else c for c in name) if k == 2 else name


def text_of(o, rng):
    op, args, at = o["op"], o["args"], o["at"]
    if op in ("scale", "scale_x", "scale_y") and at:
        # texts know no centre for scales: the same by three functions
        x, y = rat(at[0]), rat(at[1]) if len(at) > 1 else 0
        return "translate(%r %r) %s translate(%r,%r)" % (x, y, text_of(dict(o, at=[]), rng), -x, -y)
    if op == "cat":
        items = [number(x, rng) for x in exact(args[0])]
    elif op in ("rotate", "skew", "skew_x", "skew_y"):
        items = [angle_text(a, rng) for a in args]
        if op == "skew" and len(items) == 1:
            items.append("0")
    else:
        items = [number(rat(a), rng) for a in args]
        if op.startswith("translate"):
            items = [i + rng.choice(["", "", "px"]) for i in items]
    items += [number(rat(a), rng) for a in at]
    sep = lambda: rng.choice([",", " ", ", ", " , ", "\n", "\t", "  "])
    out = items[0]
    for i in items[1:]:
        out += ("" if i[0] in "+-" and rng.random() < 0.2 else sep()) + i
    sp = lambda: rng.choice(["", "", " ", "\n"])
    return case(NAMES[op], rng) + sp() + "(" + sp() + out + sp() + ")"


def wrapped(job):
    f, args = job
    r = attempt(f, args)
    return r[1] if r[0] == "ok" else "raised %s %s" % r[1:]


def check_T01(check):
    prints = []
    for steps, n in ((2, 1500), (8, 1200)):
        prints += check.mc("MatrixOps", T01.format(steps=steps), simulate=n if QUICK else n * 15, depth=steps + 30).prints
    jobs = [(history, (c, i)) for i, c in enumerate(prints)]
    for (f, (c, i)), res in zip(jobs, pool_map(wrapped, jobs)):
        check.validated += 1
        for h in c:
            check.tally("operations", h["kind"] + " " + h["o"]["op"])
        if res:
            check.violation(res, dict(case=c, index=i))
    check.sample([(h["kind"], h["o"], h["ms"]) for h in prints[0]])


T02 = """SPECIFICATION Spec
CONSTANTS Size={size}
INVARIANTS InvOrder InvSplit InvAct Emit
"""


def reading(job):
    from svgio.basic import Matrix
    case, index = job
    rng = random.Random(index)
    fs, want = case["fs"], case["m"]
    glue = lambda: rng.choice([" ", "", ",", "\n", " , "])

    def spell(part):
        return rng.choice(["", "", " "]) + "".join(text_of(f, rng) + glue() for f in part)
    for _ in range(3):
        text = spell(fs)
        m = Matrix(text)
        if not same(m, want, 1e-9 if index % 2 else 1e-7):
            return "Matrix(%r) is %r instead of %r" % (text, coeffs(m), exact(want))
        if not Matrix(*exact(want)) * "" == Matrix(*exact(want)):
            return "the empty text is not the identity"
        k = rng.randrange(len(fs) + 1)
        a, b = spell(fs[:k]), spell(fs[k:])
        for p in (Matrix(b) * Matrix(a), Matrix(b) * a, Matrix(b) @ a):
            if not same(p, want, 1e-7):
                return "Matrix(%r) * Matrix(%r) is %r instead of %r" % (b, a, coeffs(p), exact(want))
        p = Matrix()
        p.parse(a)
        p.parse(b)
        if not same(p, want, 1e-7):
            return "parsing %r and then %r gives %r instead of %r" % (a, b, coeffs(p), exact(want))
        if max(map(abs, exact(want))) < 1e3 and not ((Matrix(*coeffs(m)) == text) is True and (m != text) is False):
            return "%r is not equal to its text %r" % (m, text)
    shown = [float(x) for x in str(m).replace("[", " ").replace("]", " ").replace(",", " ").split()]
    e = coeffs(m)
    if len(shown) != 6 or any(abs(x - y) > 1e-6 + 1e-6 * abs(y) for x, y in zip(shown, [e[k] for k in (0, 2, 1, 3, 4, 5)])):
        return "the matrix %r is shown as %s" % (e, m)
    back = eval(repr(m), {"Matrix": Matrix})
    if not (same(back, want, 1e-7) and back == m):
        return "the representation of %r reads back as %r" % (coeffs(m), coeffs(back))
    for t in ("matrix(%r,%r,%r,%r,%r,%r)" % tuple(coeffs(m)), "matrix(%s)" % " ".join(repr(x) for x in coeffs(m))):
        if coeffs(Matrix(t)) != coeffs(m):
            return "%s reads back as %r" % (t, coeffs(Matrix(t)))
    return None


def check_T02(check):
    prints = []
    for size, n in ((1, 1500), (2, 1000), (4, 1000)):
        prints += check.mc("TransformText", T02.format(size=size), simulate=n if QUICK else n * 20, depth=size + 25).prints
    jobs = [(reading, (c, i)) for i, c in enumerate(prints)]
    for (f, (c, i)), res in zip(jobs, pool_map(wrapped, jobs)):
        check.validated += 1
        for f in c["fs"]:
            check.tally("functions", "%s %d%s" % (f["op"], len(f["args"]), " centre" if f["at"] else ""))
        if res:
            check.violation(res, dict(case=c, index=i))
    check.sample(prints[-1])
