"""G02: positions along a path (Walk.tla)."""
import math
import random

import common
from common import QUICK, attempt, close, pool_map
from geo import arc, near, on_ellipse

CFG = """SPECIFICATION Spec
CONSTANTS Size={size}
INVARIANTS InvForward InvConnected Emit
"""


def scaled_seg(s, f):
    from svgio.path import Move, Line, Close, QuadraticBezier, CubicBezier
    net = [(p[0] * f, p[1] * f) for p in s["net"]]
    if s["kind"] == "move":
        return Move(net[0], net[1])
    if s["kind"] == "close":
        return Close(net[0], net[1])
    if s["kind"] == "arc":
        a = dict(s["arc"])
        for k in "cuv":
            a[k] = [x * f for x in a[k]]
        e = on_ellipse(a, 1)
        return arc(a, (net[0], (round(e[0] / f) * f, round(e[1] / f) * f)))
    return {2: Line, 3: QuadraticBezier, 4: CubicBezier}[len(net)](*net)


def one(job):
    from svgio.path import Path
    import numpy as np
    case, index = job
    rng = random.Random(index)
    f = [1.0, 0.01, 1e4, 0.1][index % 4]
    path = Path()
    for s in case["segs"]:
        path.append(scaled_seg(s, f))
    unit = [math.pi / 2 if s["kind"] == "arc" else 1.0 for s in case["segs"]]
    lens = [u * s["len"] for u, s in zip(unit, case["segs"])]
    total = sum(lens)
    if index % 3 == 0 and not close(path.length(), total * f, 1e-7):
        return "length %r instead of %r" % (path.length(), total * f)
    ts, want = [], []
    for o in case["seen"]:
        i = o["seg"] - 1
        t = (sum(lens[:i]) + lens[i] * o["a"] / o["n"]) / total
        s = case["segs"][i]
        here = on_ellipse(s["arc"], o["a"] / o["n"]) if s["kind"] == "arc" else tuple(c / o["p"][2] for c in o["p"][:2])
        places = [here] + [tuple(p[:2]) for p in o["or"]]
        if o is case["seen"][0]:
            t = 0.0
        if o is case["seen"][-1]:
            t = 1.0
        for q in (t, math.nextafter(t, 2), math.nextafter(t, -1)):
            # a joint in floating point: either side (they are places in exact arithmetic)
            if 0 <= q <= 1:
                ts.append(q)
                want.append([tuple(p[:2]) for p in o["end"]] if q == 1.0 and o["end"] else places)
    # a line to and fro would be slow near its ends: tolerance by scale
    def ok(p, places):
        return p is not None and any(near((p[0] / f, p[1] / f), w, 2e-6) for w in places)
    order = list(range(len(ts)))
    rng.shuffle(order)

    def ask(path, makers):
        for k in order:
            p = path.point(ts[k])
            if not ok(p, want[k]):
                return "point(%r) is %r instead of one of %r (x%g)" % (ts[k], p, want[k], f)
        for sub in (order, order[:1], sorted(order)):
            for make in makers:
                got = path.npoint(make([ts[k] for k in sub]))
                if len(got) != len(sub):
                    return "npoint gave %d points for %d positions" % (len(got), len(sub))
                for g, k in zip(got, sub):
                    if not ok(g, want[k]):
                        return "npoint at %r is %r instead of one of %r (x%g)" % (ts[k], tuple(g), want[k], f)
    r = ask(path, (list, np.array))
    if not r and index % 3 == 1 and all(len(s["net"]) < 4 for s in case["segs"]):
        # lengths that need no numerical integration
        with common.bare():
            r = ask(Path(path), (list, tuple))
        r = r and "without numpy " + r
    return r


def wrapped(job):
    r = attempt(one, job)
    return r[1] if r[0] == "ok" else "raised %s %s" % r[1:]


def check_G02(check):
    prints = []
    for size, n in ((1, 300), (2, 800), (3, 800), (5, 1200), (8, 800)):
        r = check.mc("Walk", CFG.format(size=size), simulate=n if QUICK else n * 12, depth=400)
        prints += r.prints
    jobs = [(c, i) for i, c in enumerate(prints)]
    for (c, i), res in zip(jobs, pool_map(wrapped, jobs)):
        check.validated += 1
        check.count("positions", 3 * len(c["seen"]))
        for s in c["segs"]:
            check.tally("segments", s["kind"] + (" empty" if s["len"] == 0 else ""))
        if res:
            check.violation("%s: %s" % ([(s["kind"], s["net"]) for s in c["segs"]], res), dict(case=c, index=i))
    check.sample(prints[0])
