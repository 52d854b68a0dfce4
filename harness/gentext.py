"""Random path programs and random ways of writing them."""
from pathproj import ARITY, BAD, KINDS, controls
from math import degrees, pi

LETTERS = "MmLlHhVvCcSsQqTtAaZz"
SEPS = [" ", ",", "\t", "\n", "\r", "\f", "  ", ", ", " ,", "\n\t", " , ", "\r\n", ",\n "]


def rand_arc(rng, d):
    """Radii clearly large enough, clearly too small, equal, or zero; scaled to 10^-d units."""
    u = 10 ** d
    case = rng.randrange(6)
    if case == 0:
        rx, ry = rng.randint(100, 300) * u, rng.randint(100, 300) * u
    elif case == 1:
        rx = ry = rng.randint(60, 200) * u
    elif case == 2:
        rx, ry = rng.randint(1, 9), rng.randint(1, 9)
    elif case == 3:
        rx, ry = rng.choice([(0, 5 * u), (5 * u, 0), (0, 0)])
    else:
        rx, ry = rng.randint(1, 40) * u, rng.randint(1, 40) * u
    if rng.random() < 0.1:
        rx = -rx
    return [rx, ry, rng.choice([0, 0, 30, 45, -60, 90, 180, 270, 7]), rng.randint(0, 1), rng.randint(0, 1)]


def rand_program(rng, d, length, arcs=True, cuts=True):
    """[{c, n, z}] with numbers in units of 10^-d (rotation and flags plain)."""
    u = 10 ** d

    def num():
        r = rng.random()
        if r < 0.1:
            return 0
        if r < 0.3:
            return rng.randint(-9, 9) * u
        return rng.randint(-30 * u, 30 * u)

    prog = [dict(c=rng.choice("Mm"), n=[num(), num()], z=False)]
    letters = LETTERS if arcs else LETTERS.replace("A", "").replace("a", "")
    while len(prog) < length:
        c = rng.choice(letters)
        a = ARITY[c.upper()]
        groups = rng.choice([1, 1, 1, 2, 3])
        n = []
        for _ in range(groups):
            if a == 7:
                n += rand_arc(rng, d) + [num(), num()]
            else:
                n += [num() for _ in range(a)]
        if cuts and c.upper() in "LTQSCA" and rng.random() < 0.08:
            if c.upper() in "LT":
                n = []
            else:
                n = n[:-2]
            prog.append(dict(c=c, n=n, z=True))
            prog.append(dict(c=rng.choice("zZ"), n=[], z=False))
        else:
            prog.append(dict(c=c, n=n, z=False))
    return prog


def decimal_text(rng, m, e, fancy=True):
    """A text of m * 10^e."""
    sign = "-" if m < 0 else ("+" if fancy and rng.random() < 0.12 else "")
    m = abs(m)
    if m == 0 and fancy and rng.random() < 0.3:
        return sign + rng.choice(["0", "0.0", ".0", "00", "0e5", "0.00E-3"])
    digits = str(m)
    shift = 0
    if fancy and rng.random() < 0.25:
        shift = rng.randint(-3, 3)  # written exponent
    pt = e - shift  # digits * 10^pt, then e<shift>
    if pt >= 0 and pt <= 12:
        body = digits + "0" * pt
        if fancy and rng.random() < 0.15:
            body += "." + "0" * rng.randint(1, 3)
    elif pt < 0 and pt >= -14:
        k = -pt
        digits = digits.rjust(k + 1, "0")
        whole, frac = digits[:-k], digits[-k:]
        if whole == "0" and rng.random() < (0.5 if fancy else 0):
            whole = ""
        body = whole + "." + frac
        if fancy and rng.random() < 0.15:
            body += "0"
    else:
        shift = e
        body = digits
        if fancy and len(digits) > 1 and rng.random() < 0.5:
            body = digits[0] + "." + digits[1:]
            shift = e + len(digits) - 1
    if fancy and rng.random() < 0.1:
        body = "0" + body
    if shift:
        body += rng.choice("eE") + (rng.choice(["", "+"]) if shift > 0 else "-") + str(abs(shift)).zfill(rng.choice([1, 1, 1, 2, 3]) if fancy else 1)
    elif fancy and rng.random() < 0.05:
        body += rng.choice("eE") + rng.choice(["0", "+0", "-0"])
    return sign + body


def render(rng, prog, d, style):
    """style 0: generous random separators, 1: minimal separators, 2: any mixture. Numbers are in
    units of 10^-d, or decimals [m, e]."""
    out = []
    prev = None  # (letter, complete) of the command before

    def sep():
        return rng.choice(SEPS) + (rng.choice(SEPS) if rng.random() < 0.2 else "")

    last = ""  # last item: "" letter or nothing, "f" flag, "n" number with text
    for cmd in prog:
        c = cmd["c"]
        implicit = {"M": "L", "m": "l"}
        omit = (
            prev is not None and implicit.get(prev, prev) == c and c not in "zZ" and cmd["n"]
            and not (cmd["z"] and len(cmd["n"]) < 2) and rng.random() < 0.5
        )
        if not omit:
            if style == 0 or (style == 2 and rng.random() < 0.5):
                if out:
                    out.append(sep())
            out.append(c)
            last = ""
        a = ARITY[c.upper()]
        for i, n in enumerate(cmd["n"]):
            flag = a == 7 and i % 7 in (3, 4)
            plain = a == 7 and i % 7 in (2, 3, 4)
            if flag:
                t = str(n)
            elif isinstance(n, (list, tuple)):
                t = decimal_text(rng, n[0], n[1])
            else:
                t = decimal_text(rng, n, 0 if plain else -d)
            if last == "" or last == "f":
                need = False
            elif flag:
                need = True
            else:
                need = not (t[0] in "+-" or (t[0] == "." and ("." in last or "e" in last.lower())))
            if need or style == 0 or (style == 2 and rng.random() < 0.5):
                out.append(sep() if (style != 1 or rng.random() < 0.2) else rng.choice(" ,"))
            out.append(t)
            last = "f" if flag else t
        prev = c if not cmd["z"] else None
    text = "".join(out)
    if rng.random() < 0.2:
        text = rng.choice(SEPS).replace(",", " ") + text
    if rng.random() < 0.2:
        text = text + rng.choice(SEPS).replace(",", " ")
    return text


# ------------------------------------------------------------------ observation
def unit(v, d, tol=1e-6):
    try:
        x = float(v) * 10 ** d
        n = round(x)
    except (TypeError, ValueError, OverflowError):
        return BAD
    return n if abs(x - n) <= tol * max(1.0, abs(x) * 1e-3) and abs(n) < BAD else BAD


def pt(p, d):
    return [] if p is None else [unit(p.x, d), unit(p.y, d)]


def arc_obs(s, d):
    sweep = float(s.sweep)
    m = s.point(0.5)
    mid = (abs(m.x - (s.start.x + s.end.x) / 2) < 1e-6 and abs(m.y - (s.start.y + s.end.y) / 2) < 1e-6) if s.start is not None else False
    return [
        unit(s.rx, d, 1e-4), unit(s.ry, d, 1e-4), unit(degrees(float(s.get_rotation())), 0, 1e-3),
        bool(abs(sweep) > pi), bool(sweep > 0), bool(mid), bool(abs(s.length()) < 1e-6),
    ]


def seg_obs(s, d):
    k = KINDS.get(type(s).__name__, "?")
    return dict(
        k=k, r=bool(s.relative), h=bool(s.smooth), s=pt(s.start, d), c=[pt(p, d) for p in controls(s)],
        e=pt(s.end, d), a=arc_obs(s, d) if k == "A" else [],
    )


def path_obs(p, d):
    return [seg_obs(s, d) for s in p]


def normal_decimal(x):
    """[m, e] of the shortest decimal of a float, or [BAD, 0] if it has more than 9 digits."""
    from decimal import Decimal
    sign, digits, e = Decimal(repr(float(x))).as_tuple()
    m = int("".join(map(str, digits)))
    if m == 0:
        return [0, 0]
    while m % 10 == 0:
        m //= 10
        e += 1
    if m >= 10 ** 9:
        return [BAD, 0]
    return [-m if sign else m, e]


def wide_obs(p):
    nums = []
    for s in p:
        for q in controls(s) + [s.end]:
            nums += [normal_decimal(q.x), normal_decimal(q.y)]
    return nums
