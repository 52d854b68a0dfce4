"""V01..V03: colors (ColorText.tla, Colors.tla, ColorLaws.tla, ColorTrace.tla)."""
import random

import common
from common import QUICK, SEED, attempt, pool_map, tlc

TEXT_CFG = """SPECIFICATION Spec
CONSTANTS Short = %s
INVARIANTS InvHex InvRange InvGray InvPure Emit
"""


def channels(c):
    return [c.red, c.green, c.blue, c.alpha]


def fits(c, want):
    """want: [[n, d, slack]...]: |channel - n/d| <= slack/2"""
    if not want:
        return c.value is None
    if c.value is None:
        return False
    for x, (n, d, s) in zip(channels(c), want):
        if isinstance(x, bool) or not isinstance(x, int) or not 0 <= x <= 255 or abs(2 * (x * d - n)) > s * d:
            return False
    return True


def numeral(n, scale, rng):
    """n/scale written as a decimal."""
    s = "-" if n < 0 else rng.choice(["", "", "", "+"])
    q, r = divmod(abs(n), scale)
    digits = len(str(scale)) - 1
    frac = ("%0*d" % (digits, r)) if digits else ""
    if not r:
        return s + str(q) + (rng.choice(["", "", "." + "0" * rng.randrange(1, 3)]) if digits else "")
    frac = frac.rstrip("0")
    return s + rng.choice([str(q), "" if q == 0 else str(q), "0" + str(q)]) + "." + frac + rng.choice(["", "0"])


def recase(text, rng):
    r = rng.randrange(4)
    return text if r == 0 else text.upper() if r == 1 else text.title() if r == 2 else "".join(rng.choice([c.upper(), c]) for c in text)


def seps(rng):
    return [rng.choice(["", " ", "  "]) + "," + rng.choice(["", " ", "\t"]) for _ in range(3)]


def call(name, parts, rng):
    s = seps(rng)
    t = name + "(" + rng.choice(["", " "]) + parts[0]
    for sep, p in zip(s, parts[1:]):
        t += sep + p
    return t + rng.choice(["", " "]) + ")"


def makers(case, rng):
    """Ways to give this color: (description, function)."""
    from svgio import Color
    k, a, name = case["kind"], case["args"], case["name"]

    def text(t):
        return [(repr(t), lambda: Color(t))]
    if k.startswith("hex"):
        digits = "".join(rng.choice([d, d.upper()]) for d in ("%x" % x for x in a[:int(k[3])]))
        return text("#" + digits)
    if k in ("rgb", "rgba"):
        # the alpha may be written in either function
        parts = [numeral(x, 1, rng) for x in a[:3]] + ([numeral(a[3], 1000, rng)] if k == "rgba" else [])
        return text(call(rng.choice(["rgb", "rgba"]), parts, rng))
    if k in ("rgbp", "rgbap"):
        parts = [numeral(x, 10, rng) + "%" for x in a[:3]] + ([numeral(a[3], 1000, rng)] if k == "rgbap" else [])
        return text(call(rng.choice(["rgb", "rgba"]), parts, rng))
    if k in ("hsl", "hsla"):
        parts = [numeral(a[0], 1, rng), numeral(a[1], 1, rng) + "%", numeral(a[2], 1, rng) + "%"]
        parts += [numeral(a[3], 1000, rng)] if k == "hsla" else []
        return text(call(rng.choice(["hsl", "hsla"]), parts, rng))
    if k == "args3":
        return [("Color%r" % (tuple(a[:3]),), lambda: Color(*a[:3]))]
    if k == "args4":
        return [("Color%r" % (tuple(a),), lambda: Color(*a))]
    if k == "kw":
        o = a[3] / 1000.0
        return [("Color(red=%d, green=%d, blue=%d, opacity=%r)" % (*a[:3], o), lambda: Color(red=a[0], green=a[1], blue=a[2], opacity=o)),
                ("Color(r=%d, g=%d, b=%d, opacity=%r)" % (*a[:3], o), lambda: Color(r=a[0], g=a[1], b=a[2], opacity=o))]
    if k == "keyword":
        t = recase(name, rng)
        return text(t)
    if k == "keyword_opacity":
        t, o = recase(name, rng), a[3] / 1000.0
        return [("Color(%r, %r)" % (t, o), lambda: Color(t, o)), ("Color(%r, opacity=%r)" % (t, o), lambda: Color(t, opacity=o)),
                ("Color(Color(%r), %r)" % (t, o), lambda: Color(Color(t), o))]
    if k == "transparent":
        return text(recase("transparent", rng))
    if k == "none":
        return text("none") + [("Color(None)", lambda: Color(None))]
    packed = (a[0] << 16) | (a[1] << 8) | a[2]
    if k == "int":
        return [("Color(0x%06x)" % packed, lambda: Color(packed)), ("Color(rgb=0x%06x)" % packed, lambda: Color(rgb=packed))]
    if k == "rgba_int":
        return [("Color(rgba=0x%08x)" % (packed << 8 | a[3]), lambda: Color(rgba=packed << 8 | a[3]))]
    return [("Color(argb=0x%08x)" % (a[3] << 24 | packed), lambda: Color(argb=a[3] << 24 | packed))]


def same(c, d):
    """Equality in all its forms must say that c and d are one color."""
    return c == d and d == c and not c != d and not d != c


def one(job):
    from svgio import Color
    case, index = job
    rng = random.Random(index)
    want = case["is"]
    for what, make in makers(case, rng):
        c = make()
        if not fits(c, want):
            return "%s has the channels %r, it denotes %r (over, slack)" % (what, channels(c), want)
        # written forms
        h = c.hex
        for t in (str(c), repr(c), h, c.hexa):
            if t is None:
                if want:
                    return "%s writes %r" % (what, t)
                continue
            d = eval(t, {"Color": Color}) if t.startswith("Color") else Color(t)
            if channels(d) != channels(c) or not same(c, d):
                return "%s is written as %s, which reads as %r, not %r" % (what, t, channels(d), channels(c))
        # equality
        if not same(c, Color(c)) or not c == str(c) or c != str(c):
            return "%s differs from itself" % what
        if want:
            v = channels(c)
            for i in range(4):
                w = list(v)
                w[i] = rng.choice([x for x in (v[i] + 1, v[i] - 1, v[i] ^ 128, 255 - v[i]) if 0 <= x <= 255 and x != v[i]])
                d = Color(*w)
                if c == d or not c != d or c == "#%02x%02x%02x%02x" % tuple(w) or not c != "#%02x%02x%02x%02x" % tuple(w):
                    return "%s equals %r" % (what, w)
            if not c == Color(*v) or not c == "#%02X%02x%02X%02x" % tuple(v) or c != Color(*v):
                return "%s differs from %r" % (what, v)
            if c == "none" or c == Color(None) or Color("none") == c or not c != Color("none"):
                return "%s equals no color" % what
        elif c == Color(0, 0, 0) or c == "transparent" or not c != "black" or Color("black") == c:
            return "no color equals a color"
    return None


def wrapped(job):
    r = attempt(one, job)
    return r[1] if r[0] == "ok" else "raised %s %s" % r[1:]


def check_V01(check):
    prints = check.mc("ColorText", TEXT_CFG % "TRUE").prints
    prints += check.mc("ColorText", TEXT_CFG % "FALSE", simulate=12000 if QUICK else 300000, depth=2).prints
    jobs = [(c, i) for i, c in enumerate(prints)]
    for (c, i), res in zip(jobs, pool_map(wrapped, jobs)):
        check.validated += 1
        check.tally("notations", c["kind"])
        if res:
            check.violation(res, dict(case=c, index=i))
    check.sample(prints[0])
    check.sample(prints[-1])


# ---- V02, V03: recorded steps, judged by ColorTrace
LAWS_CFG = """SPECIFICATION Spec
CONSTANTS Levels = {%s} Alphas = {%s}
INVARIANTS InvHue InvSaturation InvLightness InvGray InvBlack InvOver InvOverAlpha InvDistance
"""
TRACE_CFG = """SPECIFICATION Spec
INVARIANT Judge
"""


def judge(check, records, texts):
    for p in common.decide_records(check, "ColorTrace", TRACE_CFG, records, texts):
        check.violation(texts[p["i"] - 1], records[p["i"] - 1])


def whole(v):
    return v if isinstance(v, int) and not isinstance(v, bool) and -1 < v < 256 else -1


def observe(c):
    """Channels of a color, [] for none."""
    v = [c.red, c.green, c.blue, c.alpha]
    return [] if all(x is None for x in v) and c.value is None else [whole(x) for x in v]


def scale(v, k):
    if v is None:
        return -1
    try:
        n = round(float(v) * k)
    except (TypeError, ValueError, OverflowError):
        return -2
    return n if 0 <= n <= (370 if k == 10000 else 2) * k else -2   # far outside what any color reads as, and what TLC multiplies


def split(v, n):
    """A packed integer as its bytes."""
    if v is None:
        return []
    if isinstance(v, bool) or not isinstance(v, int) or not 0 <= v < 256 ** n:
        return [-1]
    return [(v >> 8 * k) & 255 for k in reversed(range(n))]


def reading(c):
    r = dict(k="read", c=observe(c), rgb=split(c.rgb, 3), rgba=split(c.rgba, 4), argb=split(c.argb, 4), hue=scale(c.hue, 10000))
    for f in ("saturation", "lightness", "intensity", "brightness", "blackness", "luminance", "luma", "opacity"):
        r[f] = scale(getattr(c, f), 1000000)
    h = c.hsl
    r["hsl"] = [] if h is None else [scale(h[0], 10000), scale(h[1], 1000000), scale(h[2], 1000000)]
    if not r["c"] and (int(c) if c.value is not None else None) is not None:
        r["rgb"] = [-1]
    return r


def channel(rng):
    return rng.choice([rng.randrange(256), rng.randrange(256), rng.randrange(256), 0, 255, rng.randrange(6), 250 + rng.randrange(6)])


def some_color(rng):
    from svgio import Color
    r = rng.randrange(12)
    v = [channel(rng) for _ in range(4)]
    if r == 0:
        return Color("none")
    if r == 1:
        v[1] = v[2] = v[0]
    if r == 2:
        v[rng.randrange(3)] = v[rng.randrange(3)]
    if r == 3:
        v[3] = 255
    return Color(*v)


def write(c, op, n):
    """Applies one write of the given numbers."""
    if op in ("red", "green", "blue", "alpha", "hue"):
        setattr(c, op, n[0])
    elif op in ("opacity", "saturation", "lightness"):
        setattr(c, op, n[0] / 1000.0)
    elif op == "rgb":
        c.rgb = n[0] << 16 | n[1] << 8 | n[2]
    elif op == "rgba":
        c.rgba = n[0] << 24 | n[1] << 16 | n[2] << 8 | n[3]
    elif op == "argb":
        c.argb = n[3] << 24 | n[0] << 16 | n[1] << 8 | n[2]
    else:
        c.hsl = n[0], n[1] / 100.0, n[2] / 100.0


ALIASES = dict(red="r", green="g", blue="b", hue="h", saturation="s", lightness="l")


def made(c, op, n, rng):
    """A new color of the given one with one component, by keyword."""
    from svgio import Color
    v = n[0] << 16 | n[1] << 8 | n[2] if op == "rgb" else n[0] << 24 | n[1] << 16 | n[2] << 8 | n[3] if op == "rgba" else \
        n[3] << 24 | n[0] << 16 | n[1] << 8 | n[2] if op == "argb" else n[0] / 1000.0 if op in ("opacity", "saturation", "lightness") else n[0]
    name = rng.choice([op, ALIASES.get(op, op)])
    return Color(c, **{name: v})


def numbers(op, rng):
    if op in ("red", "green", "blue", "alpha"):
        return [rng.choice([channel(rng), channel(rng), rng.randrange(-300, 600)])]
    if op == "opacity":
        return [rng.choice([rng.randrange(1001), 0, 1000, rng.randrange(-500, 2000)])]
    if op == "hue":
        return [rng.choice([rng.randrange(360), 60 * rng.randrange(-6, 12), rng.randrange(-800, 1500)])]
    if op in ("saturation", "lightness"):
        return [rng.choice([rng.randrange(1001), 0, 1000, 500])]
    if op == "hsl":
        return [rng.randrange(-400, 800), rng.randrange(101), rng.randrange(101)]
    return [channel(rng) for _ in range(3 if op == "rgb" else 4)] if rng.randrange(8) else [0, 0, 0, rng.choice([0, 0, 255])][:3 if op == "rgb" else 4]


WRITES = ["red", "green", "blue", "alpha", "opacity", "rgb", "rgba", "argb", "hue", "saturation", "lightness", "hsl"]


def history(seed):
    """A history of writes to one color: records and their descriptions."""
    from svgio import Color
    rng = random.Random(seed)
    c = some_color(rng)
    out = [(reading(c), "a fresh color reads as recorded")]
    for _ in range(10):
        op = rng.choice(WRITES)
        n = numbers(op, rng)
        pre = observe(c)
        if op != "hsl" and rng.randrange(3) == 0:
            before, o = c, attempt(made, c, op, n, rng)
            if observe(before) != pre:
                out.append((dict(k="changed"), "making a color of %r with %s changed it" % (pre, op)))
            c = o[1] if o[0] == "ok" else c
        else:
            o = attempt(write, c, op, n)
        rec = dict(k="step", op=op, n=n, pre=pre, o=o[0] if o[0] == "ok" else o[1], post=observe(c))
        out.append((rec, "setting %s of %r to %r gives %r (%s)" % (op, pre, n, rec["post"], rec["o"])))
        r = reading(c)
        out.append((r, "the readings of %r are wrong: %r" % (r["c"], {k: v for k, v in r.items() if k not in "kc"})))
        a = abs(c)
        out.append((dict(k="opaque", c=observe(c), post=observe(a)), "abs of %r is %r" % (observe(c), observe(a))))
        if a is c:
            out.append((dict(k="alias"), "abs returned the color itself"))
        if not observe(c) and rng.random() < 0.5:
            c = some_color(rng)
    return out


def recorded(job):
    fn, seed = job
    r = attempt(fn, seed)
    return r[1] if r[0] == "ok" else [(dict(k="raised"), "%s(%r) raised %s %s" % ((fn.__name__, seed) + r[1:]))]


def record(check, fn, seeds):
    pairs = [x for rs in pool_map(recorded, [(fn, s) for s in seeds]) for x in rs]
    for r, _ in pairs:
        check.tally("records", r["k"] + (" " + r["op"] if "op" in r else ""))
    judge(check, [r for r, _ in pairs], [t for _, t in pairs])
    check.sample(pairs[1][0])


def laws(check):
    q = QUICK
    check.mc("ColorLaws", LAWS_CFG % ("0, 1, 128, 255" if q else "0, 1, 2, 60, 127, 128, 254, 255", "0, 1, 128, 255"))


def sweep(channel_index):
    """Every value of one channel, over several other channels."""
    from svgio import Color
    out = []
    name = ("red", "green", "blue", "alpha")[channel_index]
    for v in range(256):
        rng = random.Random(v)
        for base in ([0, 0, 0, 0], [255, 255, 255, 255], [channel(rng) for _ in range(4)]):
            c = Color(*base)
            o = attempt(write, c, name, [v])
            post = observe(c)
            out.append((dict(k="step", op=name, n=[v], pre=base, o=o[0] if o[0] == "ok" else o[1], post=post), "setting %s of %r to %d gives %r" % (name, base, v, post)))
            out.append((reading(c), "the readings of %r are wrong" % post))
    return out


def check_V02(check):
    laws(check)
    record(check, sweep, range(4))
    record(check, history, range(SEED * 1000000, SEED * 1000000 + (1500 if QUICK else 30000)))


def given(c, rng):
    """The color, a text of it, or its integer if it is opaque: with what that is written as."""
    r = rng.randrange(4)
    if r == 0:
        return str(c), repr(str(c))
    if r == 1 and c.alpha == 255:
        return c.rgb, "0x%06x" % c.rgb
    return c, repr(c)


def mixtures(seed):
    from svgio import Color
    rng = random.Random(seed)
    out = []
    for _ in range(6):
        v = [[channel(rng) for _ in range(4)] for _ in range(2)]
        if rng.randrange(4) == 0:
            v[0][3] = rng.choice([255, 255, 254, 253, 1, 0])
        if rng.randrange(4) == 0:
            v[1][3] = rng.choice([255, 255, 254, 1, 0])
        if rng.randrange(5) == 0:
            v[1][:3] = v[0][:3]
        if rng.randrange(5) == 0:
            j = rng.randrange(3)
            v[1][:3] = [x if i != j else min(255, x + 1) for i, x in enumerate(v[0][:3])]
        p, q = Color(*v[0]), Color(*v[1])
        (x, xt), (y, yt) = given(p, rng), given(q, rng)
        # over
        if True:
            w = Color.over(x, y)
            got = observe(Color(rgba=w)) if isinstance(w, int) else observe(w)
            out.append((dict(k="over", p=v[0], q=v[1], post=got), "%s over %s is %r" % (xt, yt, got)))
            b = Color(q)
            b.blend(x)
            out.append((dict(k="over", p=v[0], q=v[1], post=observe(b)), "%s blended with %s is %r" % (q, xt, observe(b))))
            a = rng.choice([0, 1, rng.randrange(1, 255), 255])
            if True:
                b = Color(q)
                b.blend(x, a / 255.0)
                out.append((dict(k="over", p=v[0][:3] + [a], q=v[1], post=observe(b)), "%s blended with %s at %d/255 is %r" % (q, xt, a, observe(b))))
        # distance
        for static in (True, False):
            for s, t, st, tt in ((x, y, xt, yt), (y, x, yt, xt), (x, x, xt, xt)):
                if static:
                    sq, d = Color.distance_sq(s, t), Color.distance(s, t)
                else:
                    sq, d = Color.distance_sq(Color(s), t), Color(s).distance_to(t)
                a, b = (v[0], v[1]) if s is x and t is y else (v[1], v[0]) if s is y and t is x else (v[0], v[0])
                back = round(d * d) if abs(d * d - round(d * d)) < 1e-6 and d >= 0 else -1
                out.append((dict(k="dist", p=a, q=b, sq=sq if isinstance(sq, int) else -1, back=back), "the distance of %s and %s is %r, squared %r" % (st, tt, d, sq)))
        if observe(p) != v[0] or observe(q) != v[1]:
            out.append((dict(k="changed"), "mixing or comparing changed %r or %r" % (v[0], v[1])))
    return out


def distincts(span):
    r = attempt(distinct_span, span, seconds=60.0)
    return r[1] if r[0] == "ok" else [-1]


def distinct_span(span):
    """The opaque rgb values of a range of indexes of the distinct sequence; -1 if one is not opaque."""
    from svgio import Color
    out = []
    for i in range(*span):
        c = Color.distinct(i)
        out.append(c.rgb if c.alpha == 255 and 0 <= c.rgb < 2 ** 24 else -1)
    return out


def spans(check):
    """Indexes: a dense start, and those around the cubes, where the sequence turns a corner."""
    out = [(i, i + 500) for i in range(0, 30000 if QUICK else 120000, 500)]
    top = out[-1][1]
    rng = random.Random(SEED)
    for n in range(32 if QUICK else 50, 256):
        if n ** 3 - 60 > top:
            for at in (n ** 3, n ** 3 + 1 + 3 * n):
                out.append((at - 8, at + 8))
            k = rng.randrange(n ** 3 + 40 + 3 * n, (n + 1) ** 3 - 60)
            out.append((k, k + 20))
    return out + [(256 ** 3 - 20, 256 ** 3)]


def distinct_once(check):
    ss = spans(check)
    vs = [x for r in pool_map(distincts, ss) for x in r]
    check.count("distinct_colors", len(vs))
    judge(check, [dict(k="distinct", v=vs)], ["the distinct colors of %r repeat or are not opaque" % (ss[:3] + ["..."] + ss[-2:])])
    again = distincts(ss[0])
    if again != vs[:len(again)]:
        check.violation("the distinct sequence is not deterministic", dict(span=ss[0]))
    if not QUICK:
        seen = bytearray(2 ** 24)
        for r in pool_map(distincts, [(i, i + 4096) for i in range(0, 256 ** 3, 4096)]):
            for x in r:
                if x < 0 or seen[x]:
                    check.violation("the distinct sequence repeats %06x" % x, dict(rgb=x))
                    return
                seen[x] = 1
        check.count("distinct_colors_all", 256 ** 3)


def check_V03(check):
    laws(check)
    record(check, mixtures, range(SEED * 1000000, SEED * 1000000 + (1000 if QUICK else 20000)))
    distinct_once(check)
