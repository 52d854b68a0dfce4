"""T04: lengths in transforms (TransformLengths.tla)."""
import random
from copy import copy

import common
from common import QUICK, attempt, pool_map
from c_matrix import NAMES, angle_text, case as cased, coeffs, exact, number, rat

CFG = """SPECIFICATION Spec
CONSTANTS Size={size}
INVARIANTS InvResolve Emit
"""


def text_of(o, rng):
    op = o["op"]
    ls = [number(a[0] / a[1], rng) + rng.choice(["", "", " "] if a[2] else [""]) + a[2] for a in o["ls"]]
    if op == "cat":
        items = [number(x, rng) for x in exact(o["args"][0])]
    elif op in ("rotate", "skew_x", "skew_y"):
        items = [angle_text(o["args"][0], rng)] + ls
    elif op.startswith("translate"):
        items = ls
    else:
        items = [number(rat(a), rng) for a in o["args"]]
    return "%s(%s)" % (cased(NAMES[op], rng), rng.choice([",", " ", ", "]).join(items))


def context(ctx, names):
    """The named arguments; those percentages do not ask for are left out."""
    names = [k for k in names if k in ("ppi", "font_size", "font_height", "viewbox") or k in ctx["by"]]
    return {k: "0 0 %d %d" % tuple(ctx[k]) if k == "viewbox" else ctx[k] for k in names}


def one(job):
    from svgio.basic import Length, Matrix
    case, index = job
    rng = random.Random(index)
    fs, ctx = case["fs"], case["ctx"]
    want = list(exact(case["m"]))
    px = [n / d for n, d in case["px"]]
    want[4] *= px[0]
    want[5] *= px[1]
    size = max(1.0, *map(abs, want))
    # sums of large parts may cancel
    size = max(size, *(abs(l[0]) * 500 for o in fs for l in o["ls"])) if any(o["ls"] for o in fs) else size
    part, full = context(ctx, ctx["given"]), context(ctx, list(ctx))

    def wrong(m):
        return any(isinstance(g, (str, Length)) or not abs(g - w) <= 1.2e-4 * size for g, w in zip(coeffs(m), want)) \
            or any(abs(g - w) > 1e-9 * max(1.0, abs(w)) for g, w in zip(coeffs(m)[:4], want))

    def half(m, what):
        """What is known is resolved, the rest stays a length."""
        for k in (0, 1):
            v = coeffs(m)[4 + k]
            if case["known"][k]:
                if isinstance(v, Length) or not abs(v - want[4 + k]) <= 1.2e-4 * size:
                    return "%s is %r, coefficient %d should be %r" % (what, m, 4 + k, want[4 + k])
            elif abs(want[4 + k]) > 1e-6 * size and not isinstance(v, Length):
                return "%s is %r, coefficient %d should stay a length" % (what, m, 4 + k)
        return None

    glue = lambda part: rng.choice([" ", "", ","]).join(text_of(f, rng) for f in part)
    text = glue(fs)
    m = Matrix(text, **part)
    r = half(m, "Matrix(%r, %s)" % (text, part))
    if r:
        return r
    left = copy(m)
    m.render(**full)
    if wrong(m):
        return "Matrix(%r, %s), rendered with %s, is %r instead of %r" % (text, part, full, coeffs(m), want)
    if half(left, "copy"):
        return "rendering changed the copy made before: %r" % left
    again = copy(m)
    again.render(**full)
    if coeffs(again) != coeffs(m):
        return "rendering again changed %r to %r" % (m, again)
    m = Matrix(text, **full)
    if wrong(m):
        return "Matrix(%r, %s) is %r instead of %r" % (text, full, coeffs(m), want)
    # read in parts, multiplied, and made of coefficients before it is known what the lengths are
    k = rng.randrange(len(fs) + 1)
    a, b = glue(fs[:k]), glue(fs[k:])
    p = Matrix(b) * Matrix(a)
    q = Matrix()
    q.parse(a)
    q.parse(b)
    for m in (p, q, Matrix(p), Matrix(*coeffs(p))):
        m = copy(m)
        r = half(copy(m).render(**part), "%r then %r rendered with %s" % (a, b, part))
        if r:
            return r
        if m.render(**full) is not m:
            return "render returns another matrix"
        if wrong(m):
            return "%r then %r, rendered with %s, is %r instead of %r" % (a, b, full, coeffs(m), want)
    m = Matrix(*coeffs(p), **full)
    if wrong(m):
        return "Matrix(*%r, %s) is %r instead of %r" % (coeffs(p), full, coeffs(m), want)
    return None


def wrapped(job):
    r = attempt(one, job)
    return r[1] if r[0] == "ok" else "raised %s %s" % r[1:]


def check_T04(check):
    prints = []
    for size, n in ((1, 1200), (2, 1200), (4, 1000)):
        prints += check.mc("TransformLengths", CFG.format(size=size), simulate=n if QUICK else n * 20, depth=size + 25).prints
    jobs = [(c, i) for i, c in enumerate(prints)]
    for (c, i), res in zip(jobs, pool_map(wrapped, jobs)):
        check.validated += 1
        check.tally("axes", "%s, %s" % tuple(c["ax"]))
        for f in c["fs"]:
            check.tally("functions", "%s %d%s" % (f["op"], len(f["args"]), " centre" if f["at"] else ""))
        if res:
            check.violation(res, dict(case=c, index=i))
    check.sample(prints[-1])
