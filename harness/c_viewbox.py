"""T03: viewbox transforms (ViewboxMap.tla)."""
import random

import common
from common import QUICK, attempt, pool_map
from c_matrix import coeffs, exact, number

CFG = """SPECIFICATION Spec
INVARIANTS InvMap Emit
"""


class Element:
    def __init__(self, x, y, width, height):
        self.x, self.y, self.width, self.height = x, y, width, height


def one(job):
    from svgio.basic import Matrix, Viewbox
    case, index = job
    rng = random.Random(index)
    f = [1, 1, 0.5, 0.1, 12.5][index % 5]       # of the element
    g = [1, 2, 0.25, 1, 10][rng.randrange(5)]   # of the viewbox
    el = [x * f for x in case["el"]]
    vb = [x * g for x in case["vb"]]
    a, how = case["par"]["align"], case["par"]["how"]
    blank = ["", "", "", " ", "  "]
    par = None if a == "-" else rng.choice(blank) + a + ("" if how == "-" else rng.choice([" ", " ", "  ", "\t", "\n "]) + how) + rng.choice(blank)
    e = exact(case["m"])
    # the image of the viewbox is scaled by f, the viewbox itself by g
    want = [e[0] * f / g, 0, 0, e[3] * f / g, e[4] * f, e[5] * f]
    seps = [" ", ",", ", ", "  "]
    text = rng.choice(["", " "]) + "".join(number(v, rng) + rng.choice(seps) for v in vb[:3]) + number(vb[3], rng)
    box = Viewbox(text, par)
    boxes = [box, Viewbox(text, preserve_aspect_ratio=par), Viewbox(box), Viewbox({"viewBox": text, "preserveAspectRatio": par} if par else {"viewBox": text})]
    late = Viewbox(None, par)
    late.set_viewbox(text)
    boxes += [late, Viewbox(str(box), par)]
    results = [b.transform(Element(*el)) for b in boxes]
    results.append(Viewbox.viewbox_transform(*(el + vb + [par])))
    for b in boxes:
        if [b.x, b.y, b.width, b.height] != vb or b.preserve_aspect_ratio != par:
            return "the viewbox %r %r is read as %s %r" % (text, par, b, b.preserve_aspect_ratio)
    size = max(1.0, *(abs(x) for x in want), *(abs(x) for x in el))
    for r in results:
        m = coeffs(Matrix(r)) if isinstance(r, str) else None
        if m is None or any(abs(x - w) > 1e-9 * size for x, w in zip(m, want)):
            return "the transform from %r to %r (%s) is %r instead of %r" % (vb, el, par, r, want)
        for cx, cy in ((vb[0], vb[1]), (vb[0] + vb[2], vb[1] + vb[3])):
            p = Matrix(r).point_in_matrix_space((cx, cy))
            if abs(p.x - (want[0] * cx + want[4])) > 1e-7 * size or abs(p.y - (want[3] * cy + want[5])) > 1e-7 * size:
                return "the corner %r goes to %r" % ((cx, cy), p)
    # something missing
    i = rng.randrange(8)
    if i < 4:
        el2 = list(el)
        el2[i] = None
        r = [rng.choice(boxes).transform(Element(*el2)), Viewbox.viewbox_transform(*(el2 + vb + [par]))]
    else:
        vb2 = list(vb)
        vb2[i - 4] = None
        r = [Viewbox.viewbox_transform(*(el + vb2 + [par])), Viewbox(None, par).transform(Element(*el)),
             Viewbox({"preserveAspectRatio": par} if par else {}).transform(Element(*el))]
    if any(x != "" for x in r):
        return "with missing values the transform is %r" % (r,)
    return None


def wrapped(job):
    r = attempt(one, job)
    return r[1] if r[0] == "ok" else "raised %s %s" % r[1:]


def check_T03(check):
    prints = check.mc("ViewboxMap", CFG, simulate=8000 if QUICK else 150000, depth=3).prints
    jobs = [(c, i) for i, c in enumerate(prints)]
    for (c, i), res in zip(jobs, pool_map(wrapped, jobs)):
        check.validated += 1
        check.tally("aspect", c["par"]["align"] + " " + c["par"]["how"])
        if res:
            check.violation(res, dict(case=c, index=i))
    check.sample(prints[0])
