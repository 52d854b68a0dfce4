"""D06: embedded images (Images.tla)."""
import random

import common
from common import QUICK, attempt, pool_map
from c_matrix import text_of

CFG = """SPECIFICATION Spec
CONSTANTS Size=%d Show="%s"
INVARIANTS InvBack InvLength InvPad InvMiddle Emit
"""
DIGITS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/="
XLINK = "{http://www.w3.org/1999/xlink}href"


def url(kind, text):
    return {"gif": "data:image/gif;base64,", "PNG": "DATA:image/png;base64,", "file": "data/", "fragment": "#", "empty": "", "percent": "data:image/png,",
            "html": "data:text/html;base64,", "upper": "data:image/PNG;base64,", "short": "data:image/pngs;base64,"}.get(kind, "data:image/%s;base64," % kind) + \
        ("" if kind == "empty" else text)


def data(st, rng):
    from svgio.nodes import Document
    text = "".join(DIGITS[d] for d in st["text"])
    wrap = rng.randrange(4)
    if wrap == 1:
        text = "".join(c + (rng.choice([" ", "\n", "\t", "\r\n", "  "]) if rng.random() < 0.2 else "") for c in text)
    elif wrap == 2:
        text = "\n" + "\n".join(text[i:i + 8] for i in range(0, len(text), 8)) + "\n"
    doc = Document()
    up = doc.svg()
    image = up.image()
    for name, kind in st["link"].items():
        if kind != "-":
            node = up if name.startswith("up") else image
            node.attributes[XLINK if name.endswith("xlink") else "href"] = url(kind, text if name == st["at"] else "AQID")
    if rng.random() < 0.5:
        image = Document(__import__("io").BytesIO(up.xml().encode("utf-8")))[0][0]
    before = dict(image.attributes)
    want = bytes(st["bytes"]) if st["data"] else None
    for _ in range(2):
        got = image.data
        if got != want or type(got) is not type(want):
            return "the data of %s are %r instead of %r" % (image.xml(), got, want)
    if dict(image.attributes) != before:
        return "asking for the data changed %r to %r" % (before, image.attributes)
    return None


def box(st, rng):
    from svgio.nodes import Document
    fs = rng.choice([" ", ",", ""]).join(text_of(o, rng) for o in st["fs"])
    up = Document().svg()
    image = up.image()
    where = rng.choice([up, image])
    if st["fs"] or rng.random() < 0.3:
        where.attributes["transform"] = fs
        if where is image and rng.random() < 0.3:
            up.attributes["transform"] = "scale(7)"
    if st["size"]:
        image.image_width, image.image_height = st["size"]
    elif rng.random() < 0.5:
        image.image_width, image.image_height = rng.choice([(None, 3), (3, None)])
    w, h = st["size"] or (0, 0)
    ps = [(x / q, y / q) for x, y, q in st["corners"]]
    want = [min(p[0] for p in ps), min(p[1] for p in ps), max(p[0] for p in ps), max(p[1] for p in ps)]
    tol = 1e-6 * max(1.0, *map(abs, want))
    for kw, wanted in (({}, want), ({"transformed": True}, want), ({"transformed": False}, [0, 0, w, h])):
        got = image.bbox(**kw)
        if got is None or len(got) != 4 or any(abs(g - x) > tol for g, x in zip(got, wanted)):
            return "the box (%r) of the %rx%r image under %r is %r instead of %r" % (kw, w, h, fs, got, wanted)
    return None


def one(job):
    f, st, seed = job
    r = attempt(f, st, random.Random(seed))
    return r[1] if r[0] == "ok" else "%s of %r raised %s %s" % (f.__name__, st, r[1], r[2])


def check_D06(check):
    for show, f, size, n in (("data", data, 24, 120), ("box", box, 3, 250)):
        n *= 1 if QUICK else 20
        size += 0 if QUICK else 3
        jobs = [(f, st, i) for i, st in enumerate(check.mc("Images", CFG % (size, show), simulate=n, depth=size + 1).prints)]
        for (g, st, i), res in zip(jobs, pool_map(one, jobs, chunk=50)):
            check.validated += 1
            check.tally("images", show)
            if show == "data":
                check.tally("links", "data" if st["data"] else "no data")
            if res:
                check.violation(res, dict(show=show, state=st, index=i))
        check.sample(jobs[-1][1])
