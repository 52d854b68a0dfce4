"""D01..D05: the document tree (DOM.tla)."""
import io
import os
import random
import tempfile
from xml.etree import ElementTree

import common
from common import QUICK, attempt, pool_map
from c_color import fits

CFG = """SPECIFICATION Spec
CONSTANTS Steps=%d Most=%d Show="%s"
INVARIANTS InvTree InvOrder InvSiblings InvEffective InvSame Emit
"""
SVGNS = "http://www.w3.org/2000/svg"
OTHER = "urn:other"
NAMES = {"a1": "data-x", "a2": "{http://www.w3.org/1999/xlink}href", "a3": "{http://www.w3.org/XML/1998/namespace}lang",
         "a4": "gr\u00f6\u00dfe", "a5": "{%s}x" % OTHER, "a6": "class", "a7": "style", "a8": "font-family"}
WRITTEN = {"a1": "data-x", "a2": "xlink:href", "a3": "xml:lang", "a4": "gr\u00f6\u00dfe", "a5": "o:x", "a6": "class", "a7": "style", "a8": "font-family"}
VALUES = {"v1": "12", "v2": "a&b<c>\"d'e", "v3": "\u00e9 \u2603 \U0001d11e", "v4": " two  spaces ", "v5": "", "v6": "line\nbreak\ttab", "v7": "]]> &amp; %s {0}"}
NUMBERS = {"n1": "0", "n2": "12.50", "n3": "-3cm", "n4": "40%", "n5": "1e2", "n6": " 07 "}
TEXTS = {"clipPathUnits": {"n1": "objectBoundingBox", "n2": "userSpaceOnUse", "n3": "x", "n4": "", "n5": "objectBoundingBox", "n6": " b c"},
         "points": {"n1": "0,0 1,1", "n2": "5 5  6 6 ,\n7 7 ", "n3": "-1-2-3-4", "n4": "", "n5": "1,2", "n6": "9,9 8 8"},
         "d": {"n1": "M0,0L1,1z", "n2": " m  1 2\n\tl 0 3 ", "n3": "M0 0h5v5z", "n4": "", "n5": "M1,1A2,2 0 0 1 3,3", "n6": "M9 9M1 1C2 2 3 3 4 4"},
         "href": {"n1": "#one", "n2": " a.png", "n3": "http://x/?a=1&b=2", "n4": "", "n5": "#", "n6": "b c"},
         "preserveAspectRatio": {"n1": "none", "n2": "xMinYMin", "n3": "xMaxYMid slice", "n4": "", "n5": "xMidYMid meet", "n6": "x"}}
IDS = {"i1": "one", "i2": "tw\u00f6-2", "i3": "three.3", "i4": "One"}
PAINTS = {"red": "red", "blue": "#00f", "half": "#10203080", "none": "none", "white": "rgb(255, 255, 255)", "clear": "transparent"}
MISC = {("stroke-width", "w1"): "2", ("stroke-width", "w2"): "0.5mm", ("transform", "w1"): "translate(3, 4)", ("transform", "w2"): "scale(2)  rotate( 30 )\n"}
UNKNOWN = {"?plain": "foo", "?upper": "Rect", "?foreign": "{%s}rect" % OTHER, "?dashed": "my-element", "?camel": "AnimateX"}
WRITTEN_TAGS = {"?plain": "foo", "?upper": "Rect", "?foreign": "o:rect", "?dashed": "my-element", "?camel": "AnimateX"}
GRAPHICAL = {"rect", "circle", "ellipse", "line", "polyline", "polygon", "path", "text", "tspan", "image"}
TRANSFORMABLE = GRAPHICAL | {"g", "svg"}
METHODS = {"clipPath": ["clipPath", "clip_path"], "linearGradient": ["linearGradient", "lineargradient"], "radialGradient": ["radialGradient", "radialgradient"]}


def name_of(nm):
    return NAMES.get(nm, nm)


def value_of(nm, v):
    if nm == "id":
        return IDS[v]
    if nm in ("stroke", "fill"):
        return PAINTS[v]
    if nm.endswith("opacity"):
        return "%g" % (int(v) / 1000.0)
    if v in NUMBERS:
        return TEXTS.get(nm, NUMBERS)[v]
    return MISC[nm, v] if (nm, v) in MISC else VALUES[v]


def real(attrs):
    return {name_of(k): value_of(k, v) for k, v in dict(attrs).items()}


def tag_of(t):
    return UNKNOWN.get(t, t)


# ---- texts
def quoted(v, rng):
    v = v.replace("&", rng.choice(["&amp;", "&#38;"])).replace("<", "&lt;").replace("\n", "&#10;").replace("\t", "&#x9;")
    v = v.replace(">", rng.choice([">", "&gt;"]))
    if rng.random() < 0.3:
        v = v.replace("\u00e9", "&#233;")
    if rng.random() < 0.5:
        return '"%s"' % v.replace('"', "&quot;")
    return "'%s'" % v.replace("'", "&apos;")


def filler(rng):
    return rng.choice(["", "", "", "\n  ", " ", "<!-- a <comment> -->", "text", "<![CDATA[<rect/>]]>", "<?pi x?>"])


def xml_text(lit, rng):
    """A text of the elements of lit."""
    mode = rng.choice(["none", "default", "default", "prefix"])
    kids = {i: [] for i in range(len(lit) + 1)}
    for i, e in enumerate(lit, 1):
        kids[e["up"]].append(i)

    def element(i, top):
        e = lit[i - 1]
        t = WRITTEN_TAGS.get(e["tag"], e["tag"])
        if mode == "prefix" and e["tag"] != "?foreign":
            t = "s:" + t
        out = "<" + t
        parts = ["%s%s=%s%s" % (WRITTEN.get(k, k), rng.choice(["", "", " "]), rng.choice(["", "", " "]), quoted(value_of(k, v), rng))
                 for k, v in dict(e["attrs"]).items()]
        if top:
            parts.append("xmlns:o='%s'" % OTHER)
            parts.append('xmlns:xlink="http://www.w3.org/1999/xlink"')
            parts += [] if mode == "none" else ["xmlns%s='%s'" % ("" if mode == "default" else ":s", SVGNS)]
            rng.shuffle(parts)
        out += "".join(rng.choice([" ", "\n", "  "]) + p for p in parts)
        inner = "".join(filler(rng) + element(k, False) for k in kids[i]) + filler(rng)
        if not inner and rng.random() < 0.7:
            return out + rng.choice(["/>", " />"])
        return out + ">" + inner + "</" + t + rng.choice(["", " "]) + ">"

    head = rng.choice(["", "", '<?xml version="1.0" encoding="UTF-8"?>\n', "<!-- first -->"])
    return head + "".join(element(k, True) for k in kids[0]) + rng.choice(["", "\n", "<!-- last -->"])


def source(text, rng, where):
    r = rng.randrange(3)
    if r == 0:
        return io.StringIO(text)
    if r == 1:
        return io.BytesIO(text.encode("utf-8"))
    path = os.path.join(where, "read%d.svg" % rng.randrange(10 ** 9))
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    return path


class Player:
    """Replays a history; nodes[k] is the node with number k."""

    def __init__(self, rng, where):
        from svgio.nodes import Document
        self.rng, self.where = rng, where
        self.doc = Document()
        self.nodes = [self.doc]

    def apply(self, op):
        from svgio import nodes
        from svgio.nodes import Document
        rng = self.rng
        node = self.nodes[op["at"]]
        if op["do"] == "read":
            text = xml_text(op["text"], rng)
            src = source(text, rng, self.where)
            if op["at"] == 0 and len(self.nodes) == 1 and rng.random() < 0.5:
                self.doc = Document(src)
                self.nodes = [self.doc]
                node = self.doc
            elif op["at"] == 0 and rng.random() < 0.5:
                self.doc.read(src)
            else:
                node.parse(src)
            base = len(self.nodes) - 1
            for e in op["text"]:
                p = node if e["up"] == 0 else self.nodes[base + e["up"]]
                # nodes arrive in order: the first child of p that is not known yet
                new = [c for c in p if not any(c is k for k in self.nodes)]
                if not new:
                    return "reading %r at %r: element %r is missing" % (text, op["at"], e["tag"])
                self.nodes.append(new[0])
        elif op["do"] == "build":
            e = op["text"][0]
            before = list(node)
            made = getattr(node, rng.choice(METHODS.get(e["tag"], [e["tag"]])))(*[value_of(k, e["attrs"][k]) for k in op["placed"]], **real({k: v for k, v in dict(e["attrs"]).items() if k not in op["placed"]}))
            if len(node) != len(before) + 1 or any(a is not b for a, b in zip(node, before)) or node[-1] is not made:
                return "%s() did not append and return one node" % e["tag"]
            if rng.random() < 0.2:  # the same outside of any document
                alone = type(node)() if op["at"] else nodes.Group()
                kid = getattr(alone, e["tag"])(**real(e["attrs"]))
                if list(map(id, alone)) != [id(kid)] or kid.parent is not alone or kid.tag() != e["tag"] or dict(kid.attributes) != real(e["attrs"]):
                    return "%s() on a node without document gave %r in %r" % (e["tag"], kid, alone)
                last = alone.g()
                if alone.is_connected is not False or kid.is_connected is not True or kid.next_sibling is not last or last.previous_sibling is not kid \
                        or last.next_sibling is not None or kid.previous_sibling is not None or alone.first_child is not kid or alone.last_child is not last \
                        or last.owner_document is not None or [id(n) for n in Document.get_ancestors(last)] != [id(last), id(alone)]:
                    return "a node without document is lost among %r" % [kid, last]
            self.nodes.append(made)
        elif op["do"] == "set":
            node.attributes[name_of(op["name"])] = value_of(op["name"], op["value"])
        elif op["do"] == "unset":
            del node.attributes[name_of(op["name"])]
        return None

    def number(self, node):
        if node is None:
            return -1
        for k, n in enumerate(self.nodes):
            if n is node:
                return k
        return "another node"


# ---- what the states are compared by
def tree_of(node):
    return [node.tag(), dict(node.attributes), [tree_of(c) for c in node]]


def want_tree(st, n):
    return [tag_of(st["tag"][n - 1]), real(st["attrs"][n - 1]), [want_tree(st, k) for k in st["kids"][n]]]


def d01(pl, st):
    for n in range(1, st["n"] + 1):
        node = pl.nodes[n]
        if node.tag() != tag_of(st["tag"][n - 1]) or type(node).__name__ != st["kind"][n - 1]:
            return "node %d is a %s named %r instead of a %s named %r" % (n, type(node).__name__, node.tag(), st["kind"][n - 1], tag_of(st["tag"][n - 1]))
        if dict(node.attributes) != real(st["attrs"][n - 1]):
            return "node %d has the attributes %r instead of %r" % (n, node.attributes, real(st["attrs"][n - 1]))
        if pl.number(node.parent) != st["up"][n - 1] or node.document is not pl.doc or node.owner_document is not pl.doc:
            return "node %d has parent %s (instead of %d) and document %r" % (n, pl.number(node.parent), st["up"][n - 1], node.document)
    for n in range(st["n"] + 1):
        if [pl.number(c) for c in pl.nodes[n]] != st["kids"][n]:
            return "node %d has the children %r instead of %r" % (n, [pl.number(c) for c in pl.nodes[n]], st["kids"][n])
    return None


def d02(pl, st):
    from svgio.nodes import Document
    rng = pl.rng
    whole = [want_tree(st, k) for k in st["kids"][0]]
    for n in rng.sample(range(1, st["n"] + 1), min(2, st["n"])):
        node, want = pl.nodes[n], want_tree(st, n)
        text = node.xml()
        if rng.random() < 0.3 and str(node) != text:
            return "node %d is saved as %r and printed as %r" % (n, text, str(node))
        back = Document(source(text, rng, pl.where))
        if len(back) != 1 or tree_of(back[0]) != want:
            return "node %d is %r, saved as %r" % (n, want, text)
        other = back[0]
        if node.is_equal_node(other) is not True or other.is_equal_node(node) is not True:
            return "node %d differs from its copy %r" % (n, text)
        if node.xml() != text or other.xml() != text:
            return "node %d is saved as %r, then as %r, its copy as %r" % (n, text, node.xml(), other.xml())
        # a difference anywhere is a difference
        deep = rng.choice(walk(other))
        change = rng.randrange(5)
        if change == 0:
            deep.attributes["more"] = ""
        elif change == 1:
            deep.g()
        elif change == 2 and deep.attributes:
            k = rng.choice(sorted(deep.attributes))
            deep.attributes[k] = deep.attributes[k] + "x"
        elif change == 3 and deep.attributes:
            del deep.attributes[rng.choice(sorted(deep.attributes))]
        elif len(deep):
            del deep[rng.randrange(len(deep))]
        else:
            deep.title()
        if node.is_equal_node(other) or other.is_equal_node(node):
            return "node %d counts as equal to a changed copy %s" % (n, other.xml())
        # so is another name
        root = ElementTree.fromstring(text)
        some = rng.choice(list(root.iter()))
        some.tag = rng.choice([x for x in ("foo", "bar", "Rect", "g", "rect", "{%s}rect" % OTHER, some.tag + "s") if x != some.tag])
        other = Document(io.BytesIO(ElementTree.tostring(root, encoding="utf-8")))[0]
        if node.is_equal_node(other) or other.is_equal_node(node):
            return "node %d counts as equal to a copy with another name, %s" % (n, other.xml())
    if [tree_of(c) for c in pl.doc] != whole:
        return "saving changed the tree to %r" % [tree_of(c) for c in pl.doc]
    twins = {tuple(t) for t in st["twins"]}
    for p in range(1, st["n"] + 1):
        for q in range(p, st["n"] + 1):
            same = p == q or (p, q) in twins
            if bool(pl.nodes[p].is_equal_node(pl.nodes[q])) != same or bool(pl.nodes[q].is_equal_node(pl.nodes[p])) != same:
                return "nodes %d and %d: equal %s, %s" % (p, q, pl.nodes[p].is_equal_node(pl.nodes[q]), same)
    if len(whole) == 1:
        path = os.path.join(pl.where, "written.svg")
        pl.doc.write(path)
        back = Document()
        back.read(path)
        if [tree_of(c) for c in back] != whole or not back[0].is_equal_node(pl.doc[0]):
            return "the document %r is written as %r" % (whole, open(path, encoding="utf-8").read())
    return None


def walk(node):
    return [node] + [d for c in node for d in walk(c)]


def d03(pl, st):
    from svgio.nodes import Document
    doc = pl.doc
    for n in range(st["n"] + 1):
        node = pl.nodes[n]
        at = n - 1
        want = dict(first_child=st["first"][n], last_child=st["last"][n], next_sibling=st["next"][at] if n else -1, previous_sibling=st["prev"][at] if n else -1,
                    parent_node=st["up"][at] if n else -1, parent_element=st["up"][at] if n else -1, parent=st["up"][at] if n else -1)
        if n and not st["tag"][at].startswith("?"):
            want.update(first_element_child=st["first"][n], last_element_child=st["last"][n], next_element_sibling=want["next_sibling"],
                        previous_element_sibling=want["previous_sibling"])
            if node.child_element_count != len(st["kids"][n]) or [pl.number(c) for c in node.children] != st["kids"][n]:
                return "node %d counts %r children: %r" % (n, node.child_element_count, [pl.number(c) for c in node.children])
        for k, v in want.items():
            got = pl.number(getattr(node, k))
            if got != v:
                return "%s of node %d is %s instead of %s" % (k, n, got, v)
        if len(node) != len(st["kids"][n]) or bool(node.has_child_nodes()) != bool(st["kids"][n]):
            return "node %d has %d children, has_child_nodes %r" % (n, len(node), node.has_child_nodes())
        if n:
            line = [pl.number(a) for a in Document.get_ancestors(node)]
            if line != st["line"][at]:
                return "the line from node %d upwards is %r instead of %r" % (n, line, st["line"][at])
            if node.is_connected is not True or node.owner_document is not doc or node.document is not doc:
                return "node %d is connected %r with %r" % (n, node.is_connected, node.owner_document)
        for m in range(st["n"] + 1):
            if bool(node.is_same_node(pl.nodes[m])) != (n == m):
                return "nodes %d and %d are the same: %r" % (n, m, node.is_same_node(pl.nodes[m]))
    return None


def box_of(segments):
    boxes = [s.bbox() for s in segments if type(s).__name__ != "Move"]
    return (min(b[0] for b in boxes), min(b[1] for b in boxes), max(b[2] for b in boxes), max(b[3] for b in boxes)) if boxes else None


def d04(pl, st):
    from svgio.nodes import Document
    before = [dict(n.attributes) for n in pl.nodes]
    order = list(range(1, st["n"] + 1))
    pl.rng.shuffle(order)
    for n in order:
        node = pl.nodes[n]
        eff = st["eff"][n - 1]
        values = Document.get_values(node)
        want = {nm: None if v == "-" else value_of(nm, v) for nm, v in eff.items()}
        for nm, v in want.items():
            if values.get(nm) != v or (nm in values) != (v is not None):
                return "the effective %s of node %d is %r instead of %r" % (nm, n, values.get(nm), v)
        t = st["tag"][n - 1]
        for nm, v in dict(st["asked"][n - 1]).items():
            if not (v == "-" and t == "rect"):  # a rectangle has values of its own for what nobody gives
                v = None if v == "-" else value_of("href" if nm == "href" and v in NUMBERS else "a2" if nm == "href" else nm, v)
                if nm == "clipPathUnits":
                    nm, v = "unit_type", "userSpaceOnUse" if v is None else v
                if getattr(node, nm) != v:
                    return "the %s of node %d (%s) is %r instead of %r" % (nm, n, t, getattr(node, nm), v)
        for tt, what, xn, yn in (("circle", "center", "cx", "cy"), ("ellipse", "center", "cx", "cy"), ("rect", "position", "x", "y")):
            if t == tt and all(st["asked"][n - 1][k] in ("n1", "n2", "n5", "n6") for k in (xn, yn)):
                got = getattr(node, what)
                if (float(got.x), float(got.y)) != tuple(float(NUMBERS[st["asked"][n - 1][k]]) for k in (xn, yn)):
                    return "the %s of node %d is %r, with %r" % (what, n, got, st["asked"][n - 1])
        if t == "path" and st["asked"][n - 1]["d"] != "-":
            from svgio import path
            given = path.Path(value_of("d", st["asked"][n - 1]["d"]))
            got = node.segments(transformed=False)
            if list(got) != list(given) or node.bbox(transformed=False) != box_of(given):
                return "the segments of node %d are %r in %r instead of %r" % (n, got, node.bbox(transformed=False), given)
        if t in TRANSFORMABLE and node.transform != want["transform"]:
            return "the transform of node %d is %r instead of %r" % (n, node.transform, want["transform"])
        if t in GRAPHICAL:
            for attr, nm in (("stroke_opacity", "stroke-opacity"), ("fill_opacity", "fill-opacity"), ("stroke_width", "stroke-width")):
                if getattr(node, attr) != want[nm]:
                    return "%s of node %d is %r instead of %r" % (attr, n, getattr(node, attr), want[nm])
            for nm in ("stroke", "fill"):
                got, p = getattr(node, nm), st[nm][n - 1]
                ok = got is None if p[0] == "absent" else got is not None and got.value is None if p[0] == "none" else got is not None and fits(got, p[1])
                if not ok:
                    return "the %s of node %d is %r, it should be %r (%s at %s)" % (nm, n, got, p, want[nm], want[nm + "-opacity"])
    if before != [dict(n.attributes) for n in pl.nodes]:
        return "queries changed attributes"
    return None


def d05(pl, st):
    doc = pl.doc
    for i, n in st["found"].items():
        got = {"id": doc.get_element_by_id(IDS[i]), "url": doc.get_element_by_url("url(#%s)" % IDS[i])}
        for k, v in got.items():
            if pl.number(v) != n:
                return "%s by %s finds node %s instead of %s" % (IDS[i], k, pl.number(v), n)
    for x in ("", "zz", "onee", "ONE", "#one"):
        if doc.get_element_by_id(x) is not None or doc.get_element_by_url("url(#zz%s)" % x) is not None or doc.get_element_by_url("one") is not None:
            return "%r finds something" % x
    for n in range(1, st["n"] + 1):
        node = pl.nodes[n]
        if not st["tag"][n - 1].startswith("?") and node.id != node.attributes.get("id"):
            return "node %d says its id is %r" % (n, node.id)
    return None


CHECKS = {"D01": ("tree", d01), "D02": ("save", d02), "D03": ("navigation", d03), "D04": ("effective", d04), "D05": ("ids", d05)}


def one(job):
    prop, history, seed = job
    rng = random.Random(seed)
    done = []
    with tempfile.TemporaryDirectory(dir=common.scratch()) as where:
        pl = Player(rng, where)
        for st in history:
            done.append(st["op"]["do"])
            r = attempt(pl.apply, st["op"])
            bad = r[1] if r[0] == "ok" else "raised %s %s" % r[1:]
            if not bad:
                r = attempt(CHECKS[prop][1], pl, st)
                bad = r[1] if r[0] == "ok" else "looking raised %s %s" % r[1:]
            if bad:
                return "after %s: %s" % (", ".join(done), bad)
    return None


def run(check, prop):
    show = CHECKS[prop][0]
    n = {"tree": 500, "save": 400, "navigation": 600, "effective": 500, "ids": 600}[show] * (1 if QUICK else 25)
    steps, most = (9, 14) if QUICK else (16, 30)
    prints = check.mc("DOM", CFG % (steps, most, show), simulate=n, depth=steps + 1).prints
    jobs = []
    for st in prints:
        if st["step"] == 1:
            jobs.append((prop, [], len(jobs)))
        jobs[-1][1].append(st)
    for (p, hist, i), res in zip(jobs, pool_map(one, jobs, chunk=8)):
        check.validated += 1
        for st in hist:
            check.tally("steps", st["op"]["do"])
        check.count("nodes", hist[-1]["n"])
        if res:
            check.violation(res, dict(history=[st["op"] for st in hist], index=i))
    check.sample([st["op"] for st in jobs[0][1]])


def check_D01(check):
    run(check, "D01")


def check_D02(check):
    run(check, "D02")


def check_D03(check):
    run(check, "D03")


def check_D04(check):
    run(check, "D04")


def check_D05(check):
    run(check, "D05")
