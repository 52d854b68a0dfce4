"""D08: the viewbox transform of elements (ElementView.tla)."""
import io
import random

from common import QUICK, attempt, pool_map
from c_matrix import coeffs, exact, number

CFG = """SPECIFICATION ESpec
CONSTANTS Steps=%d
INVARIANTS InvMap InvOwn EEmit
"""


def value(nm, v, f, rng):
    if nm == "preserveAspectRatio":
        return v["align"] + ("" if v["how"] == "-" else rng.choice([" ", "  "]) + v["how"])
    if nm == "viewBox":
        return "".join(number(x * f, rng) + rng.choice([" ", ",", ", "]) for x in v[:3]) + number(v[3] * f, rng)
    return number(v * f, rng) + rng.choice(["", "", "px"])


def one(job):
    from svgio.basic import Matrix
    from svgio.nodes import Document
    hist, seed = job
    rng = random.Random(seed)
    f, g = rng.choice([1, 1, 0.5, 0.1, 12.5]), rng.choice([1, 2, 0.25, 10])  # of rectangles, of viewboxes
    up = Document().svg()
    node = None
    known = [{}, {}]
    for n, st in enumerate(hist):
        for have, want, e in ((known[0], st["own"], node), (known[1], st["up"], up)):
            want = dict(want)
            for nm in [k for k in have if k not in want]:
                del have[nm]
                if e is not None:
                    del e.attributes[nm]
            for nm, v in want.items():
                if nm not in have or have[nm][0] != v:
                    have[nm] = (v, value(nm, v, g if nm == "viewBox" else f, rng))
                    if e is not None:
                        e.attributes[nm] = have[nm][1]
        if node is None:
            node = getattr(up, st["kind"])(**{nm: t for nm, (v, t) in known[0].items()})
            if rng.random() < 0.3:
                up = Document(io.BytesIO(up.xml().encode("utf-8")))[0]
                node = up[0]
        before = dict(node.attributes), dict(up.attributes)
        text = node.viewbox_transform
        where = "step %d, %s with %r in %r: " % (n, st["kind"], node.attributes, up.attributes)
        if (dict(node.attributes), dict(up.attributes)) != before:
            return where + "asking changed the attributes"
        if not st["m"]:
            if text != "":
                return where + "the transform is %r" % text
            continue
        e = exact(st["m"])
        want = [e[0] * f / g, 0, 0, e[3] * f / g, e[4] * f, e[5] * f]
        size = max(1.0, *(abs(x) for x in want))
        if not isinstance(text, str) or any(abs(x - w) > 1e-7 * size for x, w in zip(coeffs(Matrix(text)), want)):
            return where + "the transform is %r instead of %r" % (text, want)
    return None


def wrapped(job):
    r = attempt(one, job)
    return r[1] if r[0] == "ok" else "raised %s %s" % r[1:]


def check_D08(check):
    steps, n = (6, 1200) if QUICK else (12, 15000)
    jobs = []
    for st in check.mc("ElementView", CFG % steps, simulate=n, depth=steps + 1).prints:
        if st["step"] == 1:
            jobs.append(([], len(jobs)))
        jobs[-1][0].append(st)
    for (hist, i), res in zip(jobs, pool_map(wrapped, jobs, chunk=20)):
        check.validated += 1
        check.tally("elements", hist[0]["kind"])
        check.count("states", len(hist))
        check.count("states with a transform", sum(1 for st in hist if st["m"]))
        if res:
            check.violation(res, dict(history=hist, index=i))
    check.sample(jobs[0][0])
