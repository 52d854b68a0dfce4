"""P07: copies and operators (PathRegs.tla for paths, ValueRegs.tla for the small values)."""
import random
from copy import copy

import common
from common import QUICK, attempt, close, pool_map
from c_pathedit import mkseg, seg_diff, items_diff, MATS
from pathproj import controls

CFG = """SPECIFICATION Spec
CONSTANTS Depth={depth} Inits="whole"
INVARIANTS InvJoined Emit
"""


def text_of(segs):
    out = []
    for g in segs:
        out.append({"M": "M", "L": "L", "Q": "Q", "C": "C"}[g["k"]] + " ".join("%d,%d" % tuple(q) for q in g["c"] + [g["e"]]))
    return " ".join(out)


def build(reg):
    from svgio.path import Path
    if reg["t"] == "seg":
        return mkseg(reg["v"][0])
    return Path([mkseg(g) for g in reg["v"]])


def shift(p, d, rng):
    """Moves a point object, wherever it is referred to."""
    if rng.random() < 0.5:
        p.x += d[0]
        p.y += d[1]
    else:
        p += (d[0], d[1])


def segments_of(obj, reg):
    return [obj] if reg["t"] == "seg" else list(obj)


def perform(objs, h, before, rng):
    from svgio import Matrix
    from svgio.path import Path
    o = h["o"]
    op = o["op"]
    x = objs[o["x"] - 1]
    y = objs[o["y"] - 1]
    rx = before[o["x"] - 1]
    ry = before[o["y"] - 1]

    def part(obj, k):
        return obj.subpath(k - 1) if k else obj
    m = Matrix(*MATS[(o["i"] - 1) % len(MATS)])
    if op == "copy":
        v = part(x, o["k"])
        if rx["t"] == "path" and not o["k"] and rng.random() < 0.3:
            import copy as c
            return c.deepcopy(v)
        return copy(v)
    if op == "ctor":
        return Path(part(x, o["k"]))
    if op == "map":
        v = part(x, o["k"])
        if isinstance(v, Path):
            return v @ m
        return v * (m if rng.random() < 0.7 else "matrix(%d,%d,%d,%d,%d,%d)" % tuple(MATS[(o["i"] - 1) % len(MATS)]))
    if op == "add":
        return x + part(y, o["k"])
    if op == "text+":
        return text_of(o["new"]) + x
    if op == "+text":
        return x + text_of(o["new"])
    if op == "iadd":
        x += part(y, o["k"])
        return x
    if op == "itext":
        x += text_of(o["new"])
        return x
    if op == "imap":
        if isinstance(x, Path):
            x @= m
        else:
            x *= m
        return x
    if op == "del":
        del x[o["i"]]
        return x
    if op == "reverse":
        x.reverse()
        return x
    if op in ("poke", "joint", "first"):
        items = segments_of(x, rx)
        off = rx["w"][0] if rx["t"] == "sub" else 1
        d = o["d"]
        if op == "first":
            if items[0].start is not None:
                shift(items[0].start, d, rng)
            return x
        s = items[o["i"] - off]
        if op == "poke":
            for p in controls(s):
                shift(p, d, rng)
            if type(s).__name__ == "Arc":
                for p in (s.center, s.prx, s.pry):
                    shift(p, d, rng)
        else:
            if s.end is not None:
                shift(s.end, d, rng)
            if o["i"] - off + 1 < len(items) and items[o["i"] - off + 1].start is not None:
                shift(items[o["i"] - off + 1].start, d, rng)
        return x
    raise common.MachineryError(op)


def replay(job):
    case, index = job
    rng = random.Random(index)
    hist = case["h"]
    o = attempt(lambda: [build(r) for r in hist[0]["regs"]])
    if o[0] != "ok":
        return 0, "building raised %s %s" % o[1:]
    objs = o[1]
    for n, h in enumerate(hist[1:], 1):
        before = hist[n - 1]["regs"]
        r = attempt(perform, objs, h, before, rng)
        if r[0] != "ok":
            return n, "%s raised %s %s" % (h["o"]["op"], r[1], r[2])
        objs[h["o"]["dst"] - 1] = r[1]
        for q, (obj, reg) in enumerate(zip(objs, h["regs"]), 1):
            segs = reg["v"][reg["w"][0] - 1:reg["w"][1]]
            d = attempt(items_diff, [obj] if reg["t"] == "seg" else obj, segs)
            if d[0] != "ok" or d[1]:
                return n, "after %s into %d: register %d: %s" % (h["o"]["op"], h["o"]["dst"], q, d[1:] if d[0] != "ok" else d[1])
    return None


def describe(case, n):
    out = []
    for h in case["h"][1:n + 1]:
        o = h["o"]
        out.append("r%d:=%s(r%d,r%d,%d,k%d)" % (o["dst"], o["op"], o["x"], o["y"], o["i"], o["k"]))
    return "%s %s" % (" | ".join(r["t"] + " " + "".join(g["k"] for g in r["v"]) for r in case["h"][0]["regs"]), "; ".join(out))


def check_P07(check):
    check_values(check)
    depth = 6 if QUICK else 14
    r = check.mc("PathRegs", CFG.format(depth=depth), simulate=5000 if QUICK else 40000, depth=depth + 3)
    jobs = [(c, i) for i, c in enumerate(r.prints)]
    for (c, i), res in zip(jobs, pool_map(replay, jobs)):
        check.validated += 1
        for h in c["h"][1:]:
            check.tally("operations", h["o"]["op"])
        if res:
            check.violation("%s: %s" % (describe(c, res[0]), res[1]), dict(case=c, step=res[0], index=i))
    for c in r.prints[-3:]:
        check.sample(describe(c, 99)[:300])


# ---- the small values --------------------------------------------------------------------------
VCFG = """SPECIFICATION Spec
CONSTANTS Depth={depth}
INVARIANTS InvShape InvOne InvInverse Emit
"""
KINDS = "PPMMCCUUS"


def vbuild(q, v, unit):
    from svgio import Color, Length, Matrix, Point, Line
    k = KINDS[q]
    if k == "P":
        return Point(*v)
    if k == "M":
        return Matrix(*v)
    if k == "C":
        return Color(*v)
    if k == "U":
        return Length(v[0], unit)
    return Line(tuple(v[:2]), tuple(v[2:]))


def vread(q, o, unit):
    k = KINDS[q]
    if k == "P":
        return [o.x, o.y]
    if k == "M":
        return [o.a, o.b, o.c, o.d, o.e, o.f]
    if k == "C":
        return [o.red, o.green, o.blue, o.alpha]
    if k == "U":
        return [o.amount if o.units == unit else (o.amount, o.units)]
    return [o.start.x, o.start.y, o.end.x, o.end.y]


def vdo(objs, o, unit, rng):
    from svgio import Color, Length, Matrix, Point, Line
    import copy as c
    x = objs[o["x"] - 1]
    y = objs[o["y"] - 1]
    n = o["n"]
    t = o["t"]
    op = o["op"]
    if op == "copy":
        return copy(x) if rng.random() < 0.7 else c.deepcopy(x)
    if op == "ctor":
        if t == "U":
            return Length(x) if rng.random() < 0.5 else Length(str(x))
        return {"P": Point, "M": Matrix, "C": Color}[t](x)
    if op == "add":
        return x + y
    if op == "sub":
        return x - y
    if op in ("mulm", "mulc", "mul"):
        return x * y
    if op == "matmul":
        return x @ y
    if op == "addpair":
        return x + tuple(n) if rng.random() < 0.5 else tuple(n) + x
    if op == "rsubpair":
        return rng.choice([tuple(n), complex(*n)]) - x
    if op == "mulk":
        return x * n[0] if rng.random() < 0.5 else n[0] * x
    if op == "inv":
        return ~x
    if op == "vector":
        return x.vector()
    if op == "abs":
        return abs(x)
    if op == "neg":
        return -x
    if op == "line":
        return Line(objs[0], objs[1])
    if op == "iadd":
        x += y
    elif op == "isub":
        x -= y
    elif op in ("imulm", "imul"):
        x *= y
    elif op == "imatmul":
        x @= y
    elif op == "imulk":
        x *= n[0]
    elif op in ("set1", "set2", "set6"):
        x[int(op[3]) - 1] = n[0]
    elif op == "meet":
        x.move_towards(y, 1)
    elif op == "reset":
        x.reset()
    elif op == "iinv":
        x.inverse()
    elif op == "pret":
        x.pre_translate(*n)
    elif op == "posts":
        x.post_scale(*n)
    elif op in ("red", "green", "blue", "alpha"):
        setattr(x, op, n[0])
    elif op == "blend":
        x.blend(y)
    elif op == "poke1":
        shift(x.start, n, rng)
    elif op == "poke2":
        shift(x.end, n, rng)
    else:
        raise common.MachineryError(op)
    return x


def vreplay(job):
    case, index = job
    rng = random.Random(index)
    hist = case["h"]
    unit = ["mm", "in", "px", "cm", "%", "em"][index % 6]
    r = attempt(lambda: [vbuild(q, v, unit) for q, v in enumerate(hist[0]["regs"])])
    if r[0] != "ok":
        return 0, "building raised %s %s" % r[1:]
    objs = r[1]
    for n, h in enumerate(hist[1:], 1):
        o = h["o"]
        r = attempt(vdo, objs, o, unit, rng)
        if r[0] != "ok":
            return n, "%s %s raised %s %s" % (o["t"], o["op"], r[1], r[2])
        objs[o["d"] - 1] = r[1]
        for q, v in enumerate(h["regs"]):
            got = attempt(vread, q, objs[q], unit)
            if got[0] != "ok" or not all(close(a, b, 1e-9) for a, b in zip(got[1], v)):
                return n, "after %s %s into %d: register %d is %s, expected %s" % (o["t"], o["op"], o["d"], q + 1, got[1:], v)
    return None


def check_values(check):
    depth = 12 if QUICK else 30
    r = check.mc("ValueRegs", VCFG.format(depth=depth), simulate=6000 if QUICK else 40000, depth=depth + 3)
    jobs = [(c, i) for i, c in enumerate(r.prints)]
    for (c, i), res in zip(jobs, pool_map(vreplay, jobs)):
        check.validated += 1
        for h in c["h"][1:]:
            check.tally("value operations", h["o"]["t"] + " " + h["o"]["op"])
        if res:
            ops = "; ".join("%s%d:=%s(%d,%d)" % (h["o"]["t"], h["o"]["d"], h["o"]["op"], h["o"]["x"], h["o"]["y"]) for h in c["h"][1:res[0] + 1])
            check.violation("%s: %s" % (ops[-200:], res[1]), dict(case=c, step=res[0], index=i))
