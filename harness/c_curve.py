"""G01: points of a segment (Curve.tla)."""
import random

import common
from common import QUICK, attempt, pool_map
from geo import arc, bezier, frac, near, on_ellipse

CFG = """SPECIFICATION {spec}
CONSTANTS Depth={depth}
INVARIANTS {inv}
"""


def query(seg, ts, want, rng, tol):
    """The single and the vectorized query at ts, with numpy and without; returns what is wrong."""
    import numpy as np
    r = answers(seg, ts, want, rng, tol, (list, np.array))
    if not r and rng.randrange(3) == 0:
        with common.bare():
            r = answers(seg, ts, want, rng, tol, (list, tuple))
        r = r and "without numpy " + r
    return r


def answers(seg, ts, want, rng, tol, makers):
    for t, w in zip(ts, want):
        p = seg.point(t)
        if not near(p, w, tol) or not near((p.x, p.y), w, tol):
            return "point(%r) is %r instead of %r" % (t, p, w)
    order = list(range(len(ts)))
    rng.shuffle(order)
    order += order[:2]
    for make in makers:
        got = seg.npoint(make([ts[i] for i in order]))
        if len(got) != len(order):
            return "npoint gives %d points for %d positions" % (len(got), len(order))
        for k, i in enumerate(order):
            if not near(got[k], want[i], tol):
                return "npoint at %r is %r instead of %r" % (ts[i], got[k], want[i])
    return None


def ends(seg, s, e):
    if not (near(seg.point(0), s, 1e-9) and near(seg.point(1), e, 1e-9)):
        return "the ends %r %r are not start and end %r %r" % (seg.point(0), seg.point(1), s, e)
    return None


def one(job):
    from svgio.path import Move, Line
    case, index = job
    rng = random.Random(index)
    seen = case["seen"]
    ts = [x["t"] / x["d"] for x in seen]
    if "net" in case:
        k, o = [(1, 0), (1, 0), (2.0 ** -10, 0), (2.0 ** 17, 0), (1, 65536.5), (2.0 ** -7, -300.25)][index % 6]
        place = lambda p: (p[0] * k + o, p[1] * k - o)
        want = [place(frac(x["p"], x["s"])) for x in seen]
        net = [place(p) for p in case["net"]]
        seg = bezier(net, index % 2 == 0)
        tol = 1e-9
        r = query(seg, ts, want, rng, tol) or ends(seg, net[0], net[-1])
        if not r:
            m = Move(tuple(net[0]), tuple(net[-1]))
            r = query(m, ts, [tuple(net[-1])] * len(ts), rng, tol)
            r = r and "moveto: " + r
        return r
    a = case["arc"]
    k, o = [(1, 0), (1, 0), (2.0 ** -10, 0), (2.0 ** 17, 0), (1, 4096.5), (2.0 ** -7, -300.25)][index % 6]
    want = [(x * k + o, y * k - o) for x, y in (frac(x["p"], x["p"][2]) for x in seen)]
    a = dict(a, c=[a["c"][0] * k + o, a["c"][1] * k - o], u=[x * k for x in a["u"]], v=[x * k for x in a["v"]])
    seg = arc(a, (want[0], want[-1]))
    r = query(seg, ts, want, rng, 1e-7) or ends(seg, want[0], want[-1])
    if not r:   # in between, by the definition of the parameter in floating point
        more = [rng.random() for _ in range(4)]
        r = query(seg, more, [on_ellipse(a, t) for t in more], rng, 1e-7)
    return r


def check_G01(check):
    n = 4000 if QUICK else 60000
    d = 4 if QUICK else 6
    r = check.mc("Curve", CFG.format(spec="Spec", depth=d, inv="InvHalves Emit"), simulate=n, depth=d + 2)
    a = check.mc("Curve", CFG.format(spec="ArcSpec", depth=d, inv="InvUnit ArcEmit"), simulate=n // 2, depth=7)
    jobs = [(c, i) for i, c in enumerate(r.prints + a.prints)]
    for (c, i), res in zip(jobs, pool_map(wrapped, jobs)):
        check.validated += 1
        check.tally("kinds", len(c["net"]) if "net" in c else "arc")
        if res:
            check.violation("%s: %s" % (c.get("net") or c["arc"], res), dict(case=c, index=i))
    check.sample(r.prints[0])
    check.sample(a.prints[0])


def wrapped(job):
    r = attempt(one, job)
    return r[1] if r[0] == "ok" else "raised %s %s" % r[1:]
