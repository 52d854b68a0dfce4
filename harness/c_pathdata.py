"""P01..P04: path data (PathData.tla, PathProgram.tla, PathText.tla, PathTextTrace.tla)."""
import random

import common
from common import QUICK, SEED, attempt, tlc, pool_map
import pathproj
from pathproj import path_diff, plain_text

CFG_MC = """SPECIFICATION Spec
CONSTANTS Depth={depth} EmitAt={emit} Variants={variants}
INVARIANTS InvConnected InvCloses InvShape InvWhole InvAbsolute Emit
"""
CFG_SIM = """SPECIFICATION RSpec
CONSTANTS Depth={depth} EmitAt={emit} Variants={{0}}
INVARIANTS InvConnected InvCloses InvShape InvAbsolute Emit
"""


def programs(check, depth, variants, sim, simdepth):
    r = check.mc("PathProgram", CFG_MC.format(depth=depth, emit=depth + 1, variants="{%s}" % ",".join(map(str, variants))))
    out = r.prints
    check.count("programs_enumerated", len(out))
    if sim:
        r2 = check.mc("PathProgram", CFG_SIM.format(depth=simdepth, emit=simdepth + 1), simulate=sim, depth=simdepth + 1)
        check.count("programs_random", len(r2.prints))
        out = out + r2.prints
    return out


def replay_program(item):
    """Runs one program through text, piecewise text and the drawing methods."""
    import svgio
    from svgio.path import Path
    case, index = item
    prog, segs = case["p"], case["s"]
    scale = (1, 2, 8, 1)[index % 4]
    text = plain_text(prog, scale)
    bad = []

    def judge(how, fn):
        o = attempt(fn)
        if o[0] != "ok":
            bad.append("%s: raised %s %s" % (how, o[1], o[2]))
            return
        d = attempt(path_diff, o[1], segs, scale)
        if d[0] != "ok":
            bad.append("%s: comparing raised %s %s" % (how, d[1], d[2]))
        elif d[1]:
            bad.append("%s: %s" % (how, d[1]))

    judge("text", lambda: Path(text))
    cut = 1 + index % max(1, len(prog) - 1)
    if prog[cut - 1]["z"]:
        cut -= 1
    cut = max(cut, 1)

    def piecewise():
        p = Path(plain_text(prog[:cut], scale))
        for cmd, nxt in zip(prog[cut:], list(prog[cut + 1:]) + [None]):
            if cmd["z"]:
                continue
            i = prog.index(cmd)
            p += plain_text([cmd], scale)
        return p

    # a command that is ended by a closepath goes together with it
    def pieces():
        p = Path(plain_text(prog[:cut], scale))
        i = cut
        while i < len(prog):
            j = i + 2 if prog[i]["z"] else i + 1
            if (index + i) % 2:
                p += plain_text(prog[i:j], scale)
            else:
                p = p + plain_text(prog[i:j], scale)
            i = j
        return p

    judge("pieces", pieces)
    mk = (lambda x, y: (x, y), lambda x, y: svgio.Point(x, y), lambda x, y: complex(x, y))[index % 3]
    judge("methods", lambda: pathproj.build_by_methods(Path, prog, segs, scale, mk))
    return [("%s  [%s]" % (b, text), dict(program=prog, scale=scale)) for b in bad]


def check_P01(check):
    if QUICK:
        cases = programs(check, 3, [SEED % 7], 6000, 8)
    else:
        cases = programs(check, 3, [0, 1, 2], 60000, 12)
    pairs = set()
    for c in cases:
        p = c["p"]
        for a, b in zip(p, p[1:]):
            pairs.add(a["c"] + b["c"])
    check.cover["command_pairs"] = len(pairs)
    for res in pool_map(replay_program, list(zip(cases, range(len(cases))))):
        check.validated += 3
        for what, case in res:
            check.violation(what, case)
    for c in cases[-3:]:
        check.sample(dict(text=plain_text(c["p"], 1), segments=len(c["s"])))


# ------------------------------------------------------------------ P02, P03: reading text
import gentext

CFG_TRACE = """SPECIFICATION Spec
INVARIANT Judge {extra}
"""


def judge(check, records, texts, status=True):
    """Lets TLC decide all records; texts[i] describes record i."""
    for p in common.decide_records(check, "PathTextTrace", CFG_TRACE.format(extra="Status" if status else ""), records, texts):
        if "i" in p:
            rec = records[p["i"] - 1]
            check.violation("%s" % texts[p["i"] - 1], rec)
        else:
            check.tally("text_status", p["st"])


def read_record(item):
    text, d = item
    from svgio.path import Path
    o = attempt(lambda: Path(text))
    segs = []
    if o[0] == "ok":
        q = attempt(gentext.path_obs, o[1], d)
        if q[0] == "ok":
            segs, out = q[1], "ok"
        else:
            out = "projecting: " + q[1]
    else:
        out = o[1]
    return dict(k="read", t=list(text), d=d, o=out, segs=segs)


def wide_record(item):
    text, _ = item
    from svgio.path import Path
    o = attempt(lambda: gentext.wide_obs(Path(text)))
    return dict(k="wide", t=list(text), nums=o[1] if o[0] == "ok" else [], o=o[0] if o[0] == "ok" else o[1])


def describe(rec):
    return "text %r gave %s %s" % ("".join(rec["t"]), rec.get("o"), "" if rec["k"] != "read" else [
        [s["k"], s["r"], s["s"], s["c"], s["e"], s["a"]] for s in rec["segs"]])


def wide_number(rng):
    m = rng.choice([rng.randint(-9, 9), rng.randint(-999, 999), rng.randint(-999999999, 999999999)])
    e = rng.choice([0, -1, -3, rng.randint(-25, 25), rng.randint(-9, 3)])
    while m and m % 10 == 0:
        m //= 10
        e += 1
    return [m, e if m else 0]


def wide_program(rng, length):
    prog = [dict(c="M", n=[wide_number(rng), wide_number(rng)], z=False)]
    for _ in range(length):
        c = rng.choice("MLLCQ")
        groups = rng.choice([1, 1, 2])
        prog.append(dict(c=c, n=[wide_number(rng) for _ in range(groups * ARITY[c])], z=False))
    return prog


ARITY = pathproj.ARITY


def check_P02(check):
    rng = random.Random(SEED)
    n = 4000 if QUICK else 40000
    items = []
    for i in range(n):
        d = rng.choice([0, 1, 2, 3])
        prog = gentext.rand_program(rng, d, rng.randint(2, 7 if QUICK else 12))
        items.append((gentext.render(rng, prog, d, i % 3), d))
    records = pool_map(read_record, items)
    # the exhaustive part: every spelling of two numbers after a command letter, up to a length
    wide = []
    for i in range(n // 2):
        wide.append((gentext.render(rng, wide_program(rng, rng.randint(1, 5)), 0, i % 3), 0))
    records += pool_map(wide_record, wide)
    alphabet = "1.-e ,"
    tails = [""]
    level = [""]
    for _ in range(5 if QUICK else 7):
        level = [t + c for t in level for c in alphabet]
        tails += level
    small = [("M3 4L" + t, 3) for t in tails if t[-1:] not in ("e", "-", ".")]
    if not QUICK:
        small += [("M3 4h" + t, 3) for t in tails if t[-1:] not in ("e", "-", ".") and len(t) < 7]
    check.cover["texts_enumerated"] = len(small)
    records += pool_map(read_record, small)
    judge(check, records, [describe(r) for r in records])
    for r in records[:3]:
        check.sample("".join(r["t"]))
    if check.cover["text_status"].get("ok", 0) < n:
        raise common.MachineryError("too few well-formed texts")


POOL = list("MmLlHhVvCcSsQqTtAaZz0123456789.-+eE, \t\n") + ["#", "%", "x", "p", "\x0b", "_", "(", ";", "/", "i", "n", "N"]


def corruptions(rng, text, count):
    out = []
    for _ in range(count):
        t = text
        for _ in range(rng.choice([1, 1, 1, 2])):
            if not t:
                break
            p = rng.randrange(1, len(t)) if len(t) > 1 else 0
            op = rng.randrange(4)
            if op == 0:
                t = t[:p]
            elif op == 1:
                t = t[:p] + rng.choice(POOL) + t[p + 1:]
            elif op == 2:
                t = t[:p] + rng.choice(POOL) + t[p:]
            else:
                t = t[:p] + t[p + 1:]
        out.append(t)
    return out


def check_P03(check):
    rng = random.Random(SEED)
    items = []
    n = 500 if QUICK else 6000
    for i in range(n):
        d = rng.choice([0, 1, 2])
        prog = gentext.rand_program(rng, d, rng.randint(2, 5))
        text = gentext.render(rng, prog, d, rng.choice([1, 1, 2]))
        if i % 5 == 0:
            items += [(text[:j], d) for j in range(1, len(text))]
        items += [(t, d) for t in corruptions(rng, text, 12)]
    # every short continuation of a moveto over a small alphabet
    alphabet = "LzhqA1 -.x"
    level = [""]
    tails = []
    for _ in range(4 if QUICK else 5):
        level = [t + c for t in level for c in alphabet]
        tails += level
    small = [("M1 2" + t, 1) for t in tails]
    arcs = "01 z-."
    level = [""]
    for _ in range(4 if QUICK else 6):
        level = [t + c for t in level for c in arcs]
        small += [("M1 2A3 4 5" + t, 1) for t in level] + [("M1 2a3 4 5 0 1 " + t, 1) for t in level]
    # every two characters in the place of the flags, with and without separators
    for f in "0123456789+-.eEz":
        for g in "0123456789+-.eEz":
            small += [("M1 2A3 4 5" + x + f + y + g + z + "6 7", 1) for x, y, z in ((" ", " ", " "), (",", "", ""), ("\n", ",", " "))]
    check.cover["texts_enumerated"] = len(small)
    items += small
    records = pool_map(read_record, items)
    judge(check, records, [describe(r) for r in records])
    for r in records[5:8]:
        check.sample(dict(text="".join(r["t"]), outcome=r["o"], segments=len(r["segs"])))
    if check.cover["text_status"].get("err", 0) < n:
        raise common.MachineryError("too few malformed texts")


# ------------------------------------------------------------------ P04: writing text
def scramble(rng, p):
    """Edits that put curves next to other kinds, keeping a moveto in front."""
    from svgio.path import Path
    # an arc does not follow its start when a neighbour moves it, so paths with arcs are not rearranged
    arcs = any(type(s).__name__ == "Arc" for s in p)
    for _ in range(rng.randint(0, 4)):
        n = len(p)
        op = rng.choice([2, 3, 5, 6, 7] if arcs else [0, 1, 2, 3, 4, 5, 6, 7])
        if op == 0 and n > 3:
            del p[rng.randrange(1, n)]
        elif op == 1 and n > 3:
            i = rng.randrange(1, n)
            p.insert(rng.randrange(1, n), __import__("copy").copy(p[i]))
        elif op == 2:
            for s in p:
                s.relative = rng.random() < 0.5
        elif op == 3:
            for s in p:
                s.smooth = rng.random() < 0.5
        elif op == 4 and n > 2:
            i = rng.randrange(1, n)
            j = rng.randrange(1, n)
            a, b = __import__("copy").copy(p[i]), __import__("copy").copy(p[j])
            p[i] = b
            if i != j:
                p[j] = a
        elif op == 6:
            # curves that start as shorthand would, after any kind of segment
            for a, b in zip(list(p), list(p)[1:]):
                if type(b).__name__ in ("CubicBezier", "QuadraticBezier") and rng.random() < 0.6:
                    was = getattr(a, rng.choice(["control2", "control", "control1", "start", "end"]), None)
                    c = a.end if was is None else a.end + (a.end - was)
                    if type(b).__name__ == "CubicBezier":
                        b.control1 = c
                    else:
                        b.control = c
                    b.smooth = rng.random() < 0.8
        elif op == 7:
            echo(rng, p)
        elif op == 5:
            s = rng.choice("TS")
            p += s + (" 10 10" if s == "T" else " 5 5 10 10")
    return p


def echo(rng, p):
    """Puts, behind a curve and a segment without length, a curve that continues the first smoothly."""
    from svgio.path import Move, Line, Close, CubicBezier, QuadraticBezier
    from svgio import Point
    at = [i for i in range(1, len(p)) if isinstance(p[i], (CubicBezier, QuadraticBezier))]
    if not at:
        return
    i = rng.choice(at)
    q, end = p[i], Point(p[i].end)
    between = ["line", "close"] + ["move"] * (not any(isinstance(s, Close) for s in p[i:]))
    kind = rng.choice(between)
    if kind == "close":
        z = [s for s in p[:i] if isinstance(s, Move)][-1].end
        c = q.__copy__()
        c.end = Point(z)
        p[i:i + 1] = [c, Close(z, z)]
    else:
        z = end
        p.insert(i + 1, (Line if kind == "line" else Move)(z, z))
    q = p[i]
    if isinstance(q, CubicBezier):
        p.insert(i + 2, CubicBezier(z, z + (z - q.control2), z + Point(4, 2), end, smooth=True))
    else:
        p.insert(i + 2, QuadraticBezier(z, z + (z - q.control), end, smooth=True))


def write_records(item):
    text, d, seed = item
    from svgio.path import Path
    rng = random.Random(seed)
    out = []
    o = attempt(lambda: scramble(rng, Path(text)))
    if o[0] != "ok":
        return [(dict(k="broken"), "building %r: %s" % (text, o[1:]))]
    p = o[1]
    views = [("path", p)]
    subs = attempt(lambda: list(p.as_subpaths()))
    if subs[0] == "ok" and len(subs[1]) > 1:
        views.append(("subpath", rng.choice(subs[1])))
    for name, v in views:
        for rel, relname in ((False, "abs"), (True, "rel"), (None, "asis")):
            sm = rng.choice([None, True, False])

            def run():
                segs = gentext.path_obs(v, d)
                t = v.d(relative=rel, smooth=sm) if (rel is not None or sm is not None) else rng.choice([v.d, lambda: str(v)])()
                after = gentext.path_obs(v, d)
                return segs, t, after
            q = attempt(run)
            if q[0] != "ok":
                out.append((dict(k="broken"), "writing %s of %r: %s" % (name, text, q[1:])))
                continue
            segs, t, after = q[1]
            if segs != after:
                out.append((dict(k="broken"), "writing changed the %s" % name))
            out.append((dict(k="write", t=list(t), d=d, rel=relname, sm="off" if sm is False else "on", segs=segs),
                        "%s written with relative=%s smooth=%s: %r for %s" % (name, rel, sm, t, [[s["k"], s["s"], s["c"], s["e"], s["a"]] for s in segs])))
    return out


def wide_write(item):
    prog, seed = item
    rng = random.Random(seed)
    from svgio.path import Path
    text = gentext.render(rng, prog, 0, 0)

    def run():
        p = Path(text)
        return gentext.wide_obs(p), p.d(relative=False, smooth=False)
    q = attempt(run)
    if q[0] != "ok":
        return (dict(k="broken"), "wide %r: %s" % (text, q[1:]))
    return (dict(k="wide", t=list(q[1][1]), nums=q[1][0]), "written %r for %s" % (q[1][1], q[1][0]))


def check_P04(check):
    rng = random.Random(SEED)
    n = 1500 if QUICK else 15000
    items = []
    for i in range(n):
        d = rng.choice([0, 1, 2, 3])
        prog = gentext.rand_program(rng, d, rng.randint(2, 8), arcs=i % 2 == 0)
        items.append((gentext.render(rng, prog, d, 2), d, rng.random()))
    pairs = [x for res in pool_map(write_records, items) for x in res]
    pairs += pool_map(wide_write, [(wide_program(rng, rng.randint(1, 5)), rng.random()) for _ in range(n)])
    judge(check, [p[0] for p in pairs], [p[1] for p in pairs], status=False)
    for p in pairs[:3]:
        check.sample(p[1][:300])
