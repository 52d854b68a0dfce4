"""Planted bugs, see plant.py.  (id, property, [(file, old, new)], needs, what it breaks, demo)"""
P, B, N, K = "svgio/path.py", "svgio/basic.py", "svgio/nodes.py", "svgio/constants.py"

SEEDS = [
 ("append-move-cache", "P08", [(P, """            value = value[0]
        self._length = None
        index = len(self._segments) - 1
""", """            value = value[0]
        if not isinstance(value, Move):
            self._length = None  # a moveto has no length
        index = len(self._segments) - 1
""")], "a length or point query, then a moveto as the last append, then another measurement near the end of the path",
  "appending a moveto keeps the cached lengths, so that the vectorized query fails or the fractions no longer match the segments",
  '''
from svgio.path import *
p = Path("M0,0 L10,0 L10,10")
p.length()
p.move((50, 50))
q = Path("M0,0 L10,0 L10,10 M50,50")
a = [list(map(float, x)) for x in p.npoint([0.0, 0.25, 0.75, 1.0])]
b = [list(map(float, x)) for x in q.npoint([0.0, 0.25, 0.75, 1.0])]
assert a == b, (a, b)
'''),
 ("smooth-after-jump", "P04", [(P, """        if isinstance(previous, CubicBezier):
            return self.start == previous.end and (self.control1 - self.start) == (
                previous.end - previous.control2
            )
        else:
            return self.control1 == self.start
""", """        if isinstance(previous, CubicBezier):
            return self.start == previous.end and (self.control1 - self.start) == (
                previous.end - previous.control2
            )
        return self.control1 == self.start or isinstance(previous, QuadraticBezier) and (
            self.control1 - self.start
        ) == (previous.end - previous.control)
""")], "a cubic whose first control point is the mirror image of the control point of a quadratic before it, written with shorthand",
  "such a cubic is written as S although S only reflects the control point of a cubic, and reads back with another control point",
  '''
from svgio.path import *
p = Path(Move((0, 0)), QuadraticBezier((0, 0), (2, 4), (6, 6)), CubicBezier((6, 6), (10, 8), (20, 20), (30, 6)))
for relative in (True, False):
    q = Path(p.d(relative=relative, smooth=True))
    assert q[2].control1 == p[2].control1, q.d()
'''),
 ("exponent-plus", "P02", [(K, """PATTERN_FLOAT = r"[-+]?[0-9]*\\.?[0-9]+(?:[eE][-+]?[0-9]+)?\"""", """PATTERN_FLOAT = r"[-+]?[0-9]*\\.?[0-9]+(?:[eE][-+]?[0-9]{1,2})?\"""")],
  "an exponent of three digits", "numbers with exponents of three digits (leading zeros) are cut into two",
  '''
from svgio.path import *
p = Path("M1e001,2E-002 L3,4")
assert len(p) == 2 and p[0].end == (10, 0.02), p
'''),
 ("flag-any-digit", "P03", [(K, """flag_parse = [("FLAG", r"[01]"), ("SKIP", PATTERN_COMMAWSP)]""", """flag_parse = [("FLAG", r"[0-9]"), ("SKIP", PATTERN_COMMAWSP)]""")],
  "an arc flag that is a digit other than 0 or 1", "such an arc is drawn instead of being an error",
  '''
from svgio.path import *
for t in ("M0,0 A5,5 0 2 1 3,4", "M0,0 A5,5 0 1 7 3,4"):
    try:
        n = len(Path(t))
    except ValueError:
        n = 1
    assert n == 1, t
'''),
 ("reverse-reflag", "P10", [(P, """    def reverse(self):
        PathSegment.reverse(self)
        self.sweep = -self.sweep
""", """    def reverse(self):
        PathSegment.reverse(self)
        self.sweep = -self.sweep if abs(self.sweep) < tau / 2.0 else self.sweep - tau if self.sweep > 0 else self.sweep + tau
""")], "an arc of more than half a turn", "reversing a long arc gives the short arc on the other side",
  '''
from svgio.path import *
a = Arc((10, 0), 10, 10, 0, 1, 1, (0, 10))
b = Arc((10, 0), 10, 10, 0, 1, 1, (0, 10))
b.reverse()
for k in range(11):
    assert Point.distance(a.point(k / 10.0), b.point(1 - k / 10.0)) < 1e-9, k
'''),
 ("matrix-share", "P07", [(B, """    def __copy__(self):
        return Matrix(self.a, self.b, self.c, self.d, self.e, self.f)
""", """    def __copy__(self):
        return Matrix(self.a, self.b, self.c, self.d, self.e, self.f) if not self.is_identity() else self
""")], "a copy of an identity matrix that is changed afterwards (directly or as the left operand of a product)",
  "the copy of an identity matrix is the matrix itself", '''
from copy import copy
from svgio.basic import *
m = Matrix()
n = copy(m)
n.post_translate(3, 4)
assert m == Matrix(), m
'''),
 ("cubic-bbox-linear", "G03", [(P, """        if abs(denom) >= 1e-12:
            delta""", """        if abs(denom) >= 1e-3:
            delta""")], "a cubic with a small but not vanishing third difference, such as tiny coordinates",
  "cubics drawn in small units are treated as quadratics and their boxes are wrong", '''
from svgio.path import *
c = CubicBezier((0, 0), (3e-4, 2e-4), (-2e-4, 5e-4), (1e-4, 1e-4))
b = c.bbox()
for k in range(1001):
    x, y = c.point(k / 1000.0)
    assert b[0] - 1e-12 <= x <= b[2] + 1e-12 and b[1] - 1e-12 <= y <= b[3] + 1e-12, (k, x, y, b)
pts = [c.point(k / 1000.0) for k in range(1001)]
assert abs(min(p.x for p in pts) - b[0]) < 1e-8 and abs(max(p.x for p in pts) - b[2]) < 1e-8
assert abs(min(p.y for p in pts) - b[1]) < 1e-8 and abs(max(p.y for p in pts) - b[3]) < 1e-8
'''),
 ("arc-length-circle", "G04", [(P, """        d = abs(a - b)

        if d < ERROR:  # This is a circle.
            return abs(self.rx * self.sweep)
""", """        d = abs(a - b)

        if d < ERROR * max(a, b, 1.0) * 1e9:  # This is a circle.
            return abs((self.rx + self.ry) / 2.0 * self.sweep)
""")], "an ellipse with radii that differ by less than a thousandth", "nearly circular arcs get the length of the mean circle", '''
from math import *
from svgio.path import *
a = Arc((1000.5, 0), 1000.5, 1000, 0, 0, 1, (0, 1000))
n = 20000
s = sum(hypot(1000.5 * (cos((i + 1) * pi / 2 / n) - cos(i * pi / 2 / n)), 1000 * (sin((i + 1) * pi / 2 / n) - sin(i * pi / 2 / n))) for i in range(n))
b = Arc((1000.5, 0), 1000.5, 1000, 0, 0, 1, a.point(0.3))
m = 20000
t = 0.3 * pi / 2
s2 = sum(hypot(1000.5 * (cos((i + 1) * t / m) - cos(i * t / m)), 1000 * (sin((i + 1) * t / m) - sin(i * t / m))) for i in range(m))
assert abs(b.length() - s2) < 1e-3, (b.length(), s2)
assert abs(a.length() - s) < 1e-3, (a.length(), s)
'''),
 ("quads-count", "G06", [(P, """                arc_required = int(ceil(abs(segment.sweep) / sweep_limit))
                self[s : s + 1] = list(segment.as_quad_curves(arc_required))
""", """                arc_required = int(round(abs(segment.sweep) / sweep_limit))
                self[s : s + 1] = list(segment.as_quad_curves(arc_required))
""")], "a sweep whose share of the limit has a fraction below a half", "fewer pieces than the error demands (none at all for a short arc)", '''
from svgio.path import *
p = Path(Move((10, 0)), Arc((10, 0), 10, 10, 0, 0, 1, (9, 4.358898943540674)), Line((9, 4.358898943540674), (3, 3)))
p.approximate_arcs_with_quads(error=0.25)
assert [type(s).__name__ for s in p] == ["Move", "QuadraticBezier", "Line"], p
p = Path("M10,0 A10,10 0 0 1 0,10")
p.approximate_arcs_with_quads(error=0.2)
assert len(p) == 3, p
'''),
 ("point-rsub", "G09", [(B, """    def reflected_across(self, p):
        return p + (p - self)
""", """    def reflected_across(self, p):
        p += p - self
        return p
""")], "the centre of a reflection being used again", "reflecting a point moves the centre it is reflected at", '''
from svgio.basic import Point
c = Point(1, 2)
r = Point(5, 5).reflected_across(c)
assert r == (-3, -1) and c == (1, 2), (r, c)
'''),
 ("scale-percent", "T02", [(B, """            elif SVG_TRANSFORM_SCALE == name:
                params = map(float, params)
                self.pre_scale(*params)
""", """            elif SVG_TRANSFORM_SCALE == name:
                sx, sy = (list(map(float, params)) + [None])[:2]
                self.pre_scale(sx, sy or sx)
""")], "scale with a second argument of zero", "scale(x, 0) scales both axes by x instead of flattening", '''
from svgio.basic import Matrix
m = Matrix("translate(1,2) scale(3,0)")
assert (m.a, m.d) == (3, 0), m
'''),
 ("hex-case", "V01", [(K, """REGEX_COLOR_RGB = re.compile(
    r"rgba?\\(\\s*(%s)\\s*,\\s*(%s)\\s*,\\s*(%s)\\s*(?:,\\s*(%s)\\s*)?\\)\"""", """REGEX_COLOR_RGB = re.compile(
    r"rgba?\\(\\s*(%s)\\s*,\\s*(%s)\\s*,\\s*(%s)(?:\\s*,\\s*(%s)\\s*)?\\)\"""")], "white space between the blue component and the closing parenthesis",
  "such a color is not read", '''
from svgio.basic import Color
c = Color("rgb( 10 , 20 , 30 )")
assert (c.red, c.green, c.blue, c.alpha) == (10, 20, 30, 255), c
'''),
 ("length-sub-alias", "V04", [(B, """    def __isub__(self, other):
        if isinstance(other, (str, float, int)):
            other = Length(other)
        self += -other
        return self
""", """    def __isub__(self, other):
        if isinstance(other, (str, float, int)):
            other = Length(other)
        if other.units == self.units:
            self.amount -= other.amount
            return self
        other.amount = -other.amount
        self += other
        other.amount = abs(other.amount)
        return self
""")], "subtracting a negative length of another unit (and looking at it afterwards)", "the subtracted length loses its sign", '''
from svgio.basic import Length
a, b = Length("10px"), Length("-3pt")
c = a - b
assert b.amount == -3, b
assert abs(c.amount - 14) < 0.01, c
'''),
 ("angle-percent", "V05", [(B, """    def as_positive_degrees(self):
        v = self.as_degrees
        while v < 0:
            v += 360.0
        return v
""", """    def as_positive_degrees(self):
        v = self.as_degrees
        return v + 360.0 if v < 0 else v
""")], "an angle below minus one turn", "the positive form of such an angle is negative", '''
from svgio.basic import Angle
v = Angle.degrees(-400).as_positive_degrees
assert abs(v - 320) < 1e-9, v
'''),
 ("svg-unnamespaced", "D01", [(N, """                attributes = elem.attrib
                # Create new node.
""", """                attributes = {k: v for k, v in elem.attrib.items() if v}
                # Create new node.
""")], "an attribute with an empty value", "attributes with empty values are lost when reading", '''
import io
from svgio.nodes import Document
d = Document(io.BytesIO(b'<svg xmlns="http://www.w3.org/2000/svg"><g class="" id="a"/></svg>'))
assert dict(d.get_element_by_id("a").attributes) == {"class": "", "id": "a"}
'''),
 ("xml-none-values", "D02", [(N, """            v = self.attributes[k]
            context.set(str(k), str(v))
""", """            v = self.attributes[k]
            context.set(str(k), " ".join(str(v).split()) if k in ("d", "points", "transform") else str(v))
""")], "geometry attributes with line breaks or several blanks", "saving normalizes the text of some attributes", '''
import io
from svgio.nodes import Document
d = Document(io.BytesIO(b'<svg xmlns="http://www.w3.org/2000/svg"><path d="M0,0  L1,1"/></svg>'))
e = Document(io.BytesIO(d[0].xml().encode()))
assert e[0][0].attributes["d"] == "M0,0  L1,1", e[0].xml()
'''),
 ("contains-shallow", "D03", [(N, """            index = self._sibling_index()
            if index == 0:
                return None
            return self.parent[index - 1]
""", """            return self.parent[self._sibling_index() - 1] if self.parent[0] != self else None
""")], "a node with the same (empty) children as the first sibling", "such nodes have no previous sibling", '''
import io
from svgio.nodes import Document
d = Document(io.BytesIO(b'<svg xmlns="http://www.w3.org/2000/svg"><rect/><circle/><line/></svg>'))
s = d[0]
assert s[2].previous_sibling is s[1] and s[1].previous_sibling is s[0] and s[0].previous_sibling is None
'''),
 ("fill-none-opacity", "D04", [(N, """        values = dict()
        for n in reversed(list(Document.get_ancestors(node))):
            values.update(n.attributes)
        return values
""", """        values = dict()
        for n in reversed(list(Document.get_ancestors(node))):
            values.update((k, v) for k, v in n.attributes.items() if v != "inherit" and v != "")
        return values
""")], "an empty value below an ancestor that has one", "empty values no longer count as the node's own", '''
import io
from svgio.nodes import Document
d = Document(io.BytesIO(b'<svg xmlns="http://www.w3.org/2000/svg"><g stroke-width="3"><rect stroke-width=""/></g></svg>'))
assert d[0][0][0].stroke_width == ""
'''),
 ("url-first", "D05", [(N, """                if SVG_ATTR_ID in attributes:  # If we have an ID, we save the node.
                    document.objects[
                        attributes[SVG_ATTR_ID]
                    ] = node  # store node value in defs.
""", """                if SVG_ATTR_ID in attributes:  # If we have an ID, we save the node.
                    document.objects.setdefault(attributes[SVG_ATTR_ID], node)
""")], "a second element with the same id", "the first instead of the last element of an id is found", '''
import io
from svgio.nodes import Document
d = Document(io.BytesIO(b'<svg xmlns="http://www.w3.org/2000/svg"><rect id="a"/><circle id="a"/></svg>'))
assert d.get_element_by_id("a") is d[0][1]
'''),
 ("close-second-move", "P05", [(P, """        for i in range(index, -1, -1):
            segment = self._segments[i]
            if isinstance(segment, Move):
""", """        for i in range(index, 1, -1):
            segment = self._segments[i]
            if isinstance(segment, Move):
""")], "two movetos at the very start of a path and then a closepath being appended", "the closepath returns to the first of the two movetos",
  '''
from svgio.path import *
p = Path("M0,0 M5,5 L9,5")
p.append(Close())
assert p[-1].end == (5, 5), p
p.validate_connections()
assert p[-1].end == (5, 5), p
'''),
 ("subpath-scan", "P09", [(P, """            if current != last and isinstance(seg, Move):
""", """            if current > last + 1 and isinstance(seg, Move):
""")], "a subpath that is a moveto alone, followed by another moveto", "two movetos in a row are put into one subpath", '''
from svgio.path import *
p = Path("M0,0 L1,1 M5,5 M6,6 L7,7")
assert [len(s) for s in p.as_subpaths()] == [2, 1, 2], [len(s) for s in p.as_subpaths()]
'''),
 ("swap-axes", "G07", [(P, """                self.start *= other
            if self.center is not None:
""", """                self.start *= other
            circle = self.center is not None and self.is_circular()
            if self.center is not None:
"""), (P, """            if self.prx is not None:
                self.prx *= other
            if self.pry is not None:
                self.pry *= other
""", """            if self.prx is not None and self.pry is not None:
                self.prx *= other
                self.pry *= other
                if circle and abs(other.a) == abs(other.d) and abs(other.b) == abs(other.c):
                    # a circle stays a circle
                    self.pry = self.center + Point(self.center.y - self.prx.y, self.prx.x - self.center.x)
""")], "a circular arc transformed by a matrix whose two diagonals are equal in size but which is no similarity, like (2, 1, 1, 2)",
  "the circle stays a circle although the matrix shears it", '''
from svgio.path import *
from svgio.basic import Matrix
m = Matrix(2, 1, 1, 2, 3, 4)
a = Arc(start=(10, 0), end=(0, 10), center=(0, 0))
b = a * m
inv = ~m
for k in range(9):
    p = b.point(k / 8.0) * inv
    assert abs(abs(p) - 10) < 1e-6, (k, p)
'''),
 ("hull-tolerance", "G08", [(B, """        val = (q[1] - p[1]) * (r[0] - q[0]) - (q[0] - p[0]) * (r[1] - q[1])
        if val == 0:
            return 0
""", """        val = (q[1] - p[1]) * (r[0] - q[0]) - (q[0] - p[0]) * (r[1] - q[1])
        if abs(val) < 1e-9:
            return 0
""")], "points that lie close together (differences of 1e-5 or less)", "corners of small figures are taken for collinear points", '''
from svgio.basic import Point
f = 2.0 ** -20
h = [tuple(p) for p in Point.convex_hull([Point(x * f, y * f) for x, y in ((0, 0), (4, 0), (4, 4), (0, 4), (2, 2))])]
assert sorted(h) == sorted((x * f, y * f) for x, y in ((0, 0), (4, 0), (4, 4), (0, 4))), h
'''),
 ("rotate-centre-x", "T01", [(B, """    def pre_rotate(self, angle, x=0.0, y=0.0):""", """    def pre_rotate(self, angle, x=0.0, y=None):
        if y is None:
            y = x if x else 0.0""")], "a rotation given only the x of its centre", "the missing y of the centre is taken from x", '''
from math import *
from svgio.basic import Matrix
m = Matrix()
m.pre_rotate(pi / 2, 5)
n = Matrix()
n.pre_rotate(pi / 2, 5, 0)
assert max(abs(x - y) for x, y in zip((m.a, m.b, m.c, m.d, m.e, m.f), (n.a, n.b, n.c, n.d, n.e, n.f))) < 1e-9, m
'''),
 ("cancelling-translate", "T03", [(B, """        if translate_x == 0 and translate_y == 0:
            if scale_x == 1""", """        if translate_x + translate_y == 0:
            if scale_x == 1""")], "translations that are opposite numbers, such as a viewbox at (-5, 5)", "the translation is dropped", '''
from svgio.basic import Matrix, Viewbox
m = Matrix(Viewbox.viewbox_transform(0, 0, 100, 100, -5, 5, 100, 100, None))
assert (m.e, m.f) == (5, -5), m
'''),
 ("argb-opaque", "V02", [(B, """        self.value = ((argb << 8) & 0xFFFFFF00) | (argb >> 24 & 0xFF)
""", """        self.value = ((argb << 8) & 0xFFFFFF00) | (argb >> 24 & 0xFF or 0xFF)
""")], "setting argb with an alpha of zero", "a transparent argb value becomes opaque", '''
from svgio.basic import Color
c = Color("red")
c.argb = 0x00102030
assert c.alpha == 0 and c.argb == 0x00102030, c.hexa
'''),
 ("nearly-opaque", "V03", [(B, """        if a1 == 255:
            return c1.value
        if a1 == 0:
""", """        if a1 >= 254:
            return c1.value
        if a1 == 0:
""")], "a top color with alpha 254", "the result over an opaque color is not opaque", '''
from svgio.basic import Color
v = Color.over(Color("#000000fe"), Color("#ffffffff"))
assert v & 0xFF == 255, hex(v)
'''),
 ("stale-close", "P03", [(P, """                self.parser.closed(relative=cmd.islower())
                self.inline_close = None
                continue
""", """                self.parser.closed(relative=cmd.islower())
                continue
""")], "a command without arguments somewhere after a closepath", "the missing coordinates are taken from the start of the subpath", '''
from svgio.path import *
for t in ("M0,0 L5,5 z L", "M1,1 L5,5 z l 3,3 Q 1,1"):
    try:
        n = len(Path(t))
    except ValueError:
        n = 0
    assert n <= (3 if t.endswith("L") else 4), (t, n)
'''),
 ("half-box", "T03", [(B, """        if "ymid" in align:
            translate_y += (e_height - vb_height * scale_y) / 2.0
""", """        if "ymid" in align:
            translate_y += (e_height - vb_height * scale_y) // 2.0
""")], "an odd or fractional rest of height", "the middle is rounded to whole units", '''
from svgio.basic import Matrix, Viewbox
m = Matrix(Viewbox.viewbox_transform(0, 0, 10, 15, 0, 0, 10, 10, "xMidYMid meet"))
assert m.f == 2.5, m
'''),
 ("vertical-group", "P01", [(P, '''            self.vertical(*y_points[1:], relative=relative)
''', '''            self.vertical(*y_points[1:])
''')], "several relative values given to one call of vertical", "all but the first value are taken as absolute",
  '''
from svgio.path import *
p = Path("M3,4").vertical(1, 2, 3, relative=True)
assert p[-1].end == (3, 10) and all(s.relative for s in list(p)[1:]), p
'''),
 ("delete-backwards", "P06", [(P, '''        del self._segments[index]
        self._length = None
''', '''        if isinstance(index, slice):
            for i in reversed(range(*index.indices(len(self._segments)))):
                del self._segments[i]
        else:
            del self._segments[index]
        self._length = None
''')], "deleting a slice that runs backwards", "the wrong segments are deleted, or an IndexError is raised half way", '''
from svgio.path import *
p = Path("M0,0 L1,1 L2,2 L3,3 L4,4")
del p[3:0:-1]
assert len(p) == 2 and p[1].end == (4, 4), p
'''),
 ("insert-negative", "P06", [(P, '''        self._segments.insert(index, value)
''', '''        self._segments.insert(index if index >= 0 else len(self._segments) + 1 + index, value)
''')], "inserting at a negative index", "the segment is inserted one place further right than in a list", '''
from svgio.path import *
p = Path("M0,0 L1,1 L2,2")
p.insert(-1, Line((5, 5), (6, 6)))
assert p[2].end == (6, 6) and p[3].end == (2, 2), p
'''),
 ("radii-slack", "G05", [(P, '''        if radius_check > 1:
''', '''        if radius_check > 1.0001:
''')], "radii that are too small by less than 0.005 percent", "the radii are not scaled up and the arc misses its end points", '''
from svgio.path import *
a = Arc((0, 0), 9.9999, 9.9999, 0, 0, 1, (20, 0))
assert abs(a.rx - 10) < 1e-6 and Point.distance(a.point_at_t(a.get_start_t()), (0, 0)) < 1e-6, (a.rx, a)
'''),
 ("arc-snap", "G01", [(P, """            xy[positions == 0, :] = list(self.start)
""", """            xy[positions < 1e-3, :] = list(self.start)
""")], "an arc asked for a parameter below a thousandth", "the points near the start of an arc snap to its start", '''
from svgio.path import *
a = Arc((100, 0), 100, 100, 0, 0, 1, (-100, 0))
p = a.point(0.0005)
assert abs(p[1]) > 0.1, p
'''),
 ("control-level", "G10", [(P, """                    if delta_b.x == 0:  # slope_b == inf
                        cy = bc_mid.y
""", """                    if delta_b.x == 0:  # slope_b == inf
                        cy = ab_mid.y
""")], "an arc through a control point with a horizontal first and a vertical second chord", "its center lies on the first chord", '''
from svgio.path import *
a = Arc(start=(0, 0), control=(8, 0), end=(8, 6))
assert Point.distance(a.center, (4, 3)) < 1e-6, a
'''),
 ("angle-turns", "G11", [(P, """        t = atan2(a * tan(angle), b)
        tau_1_4 = tau / 4.0
        tau_3_4 = 3 * tau_1_4
        if tau_3_4 >= abs(angle) % tau > tau_1_4:
            t += tau / 2.0
        return self.point_at_t(t)
""", """        t = atan2(a * tan(angle), b)
        tau_1_4 = tau / 4.0
        tau_3_4 = 3 * tau_1_4
        if tau_3_4 >= abs(angle) > tau_1_4:
            t += tau / 2.0
        return self.point_at_t(t)
""")], "the point of an ellipse at an angle that is more than a turn from its axis", "the point lies on the opposite side", '''
from svgio.path import *
from math import tau
a = Arc(start=(10, 0), center=(0, 0), rx=10, ry=5, sweep=1)
p, q = a.point_at_angle(2.5), a.point_at_angle(2.5 + tau)
assert Point.distance(p, q) < 1e-6, (p, q)
'''),
 ("eq-prefix", "P12", [(P, """        if not isinstance(other, (Path, Subpath)):
            return NotImplemented
        if len(self) != len(other):
            return False
""", """        if not isinstance(other, (Path, Subpath)):
            return NotImplemented
        if len(self) > len(other):
            return False
""")], "a subpath that is a proper beginning of what it is compared with, and is the left operand", "a subpath equals everything that begins like it",
  '''
from svgio.path import *
p = Path("M0,0 L1,1 z M5,5 L6,6")
assert p.subpath(0) == "M0,0 L1,1 z" and not (p.subpath(0) == Path("M0,0 L1,1 z L3,3"))
'''),
 ("direct-close-forward", "P13", [(P, """        for i in range(len(self._segments) - 1, -1, -1):
            segment = self._segments[i]
            if isinstance(segment, Close):
""", """        for i in range(len(self._segments)):
            segment = self._segments[i]
            if isinstance(segment, Close):
""")], "two or more closepaths of some length, the last one near the end of the path", "the last closepaths are not made direct, as the path grows while it is scanned",
  '''
from svgio.path import *
p = Path("M0,0 L10,0 L10,10 z M20,0 L30,0 L30,10 z")
p.direct_close()
assert [type(s).__name__[0] for s in p] == list("MLLLCMLLLC"), p
'''),
 ("closest-short-line", "G12", [(P, """        if sq_distance_ab == 0:
""", """        if sq_distance_ab < ERROR:
""")], "a line shorter than a millionth", "the closest point of a very short line is always its start",
  '''
from svgio.path import *
p = Line((0, 0), (8e-7, 0)).closest_segment_point((5, 5))
assert p.x == 8e-7, p
'''),
 ("line-text-start", "P11", [(P, """            return "l %s" % (self.end - current_point)
""", """            return "l %s" % (self.end - (self.start or current_point))
""")], "relative text of a line from a point that is not its start", "the numbers are relative to the start of the line instead of the current point",
  '''
from svgio.path import *
assert Line((1, 1), (5, 7)).d(Point(2, 3), relative=True) == "l 3,4"
'''),
 ('near-end-extremum', 'G03', [(P, '        d = self.start.y - 2 * self.control.y + self.end.y\n        if d != 0:\n            t = n / float(d)\n        else:\n            t = 0.5\n        if 0 < t < 1:\n            y_values', '        d = self.start.y - 2 * self.control.y + self.end.y\n        if d != 0:\n            t = n / float(d)\n        else:\n            t = 0.5\n        if 0.01 < t < 0.99:\n            y_values')],
  'a quadratic curve that turns vertically within a hundredth of its end', 'the box misses the turn',
  '''
from svgio.path import *

b = QuadraticBezier((0, 0), (50, -1), (100, 200)).bbox()
assert b[1] < -1e-3, b
'''),
 ('nearly-circle-angle', 'G11', [(P, '        a = self.rx\n        b = self.ry\n        if a == b:\n            return self.point_at_t(angle)\n        t = atan2(a * tan(angle), b)', '        a = self.rx\n        b = self.ry\n        if abs(a - b) < 1e-2 * a:\n            return self.point_at_t(angle)\n        t = atan2(a * tan(angle), b)')],
  'an ellipse whose radii differ by less than a hundredth', 'the point at an angle is seen at another',
  '''
from svgio.path import *

a = Arc(start=(100.5, 0), center=(0, 0), rx=100.5, ry=100, sweep=1)
p = a.point_at_angle(0.7)
assert abs(float(Point(0, 0).angle_to(p)) - 0.7) < 1e-6, p
'''),
 ('closed-line-equal', 'P12', [(P, '        if not isinstance(other, self.__class__):\n            return NotImplemented\n        return self.start == other.start and self.end == other.end\n', '        if not isinstance(other, Linear):\n            return NotImplemented\n        return self.start == other.start and self.end == other.end\n')],
  'a line compared with a closepath of the same ends', 'they are equal',
  '''
from svgio.path import *

assert not (Close((0, 0), (1, 1)) == Line((0, 0), (1, 1)))
'''),
 ('move-copy-relative', 'P14', [(P, '        return Move(self.start, self.end, relative=self.relative)', '        return Move(start=self.start, end=self.end, relative=self.relative) if self.start else Move(self.end)')],
  'a copy of a relative moveto without a start', 'the copy is absolute',
  '''
from svgio.path import *
from copy import copy
assert copy(Move((1, 2), relative=True)).relative and copy(Move(None, (1, 2), relative=True)).relative
'''),
 ('ex-height', 'T04', [(B, '                relative_length=height,\n                font_size=font_size,\n                font_height=font_height', '                relative_length=height,\n                font_size=font_size,\n                font_height=font_size')],
  'a distance in ex on the y axis of a transform text, rendered with a font size and height', 'it is taken as times the font size',
  '''
from svgio.basic import *

m = Matrix("translate(2ex, 3ex)")
m.render(font_size=16, font_height=8)
assert (float(m.e), float(m.f)) == (16, 24), m
'''),
 ('relative-height', 'T04', [(B, '                height = relative_length\n            self.f', '                height = width or relative_length\n            self.f')],
  'a y percentage of a relative length where only the width is given besides', 'it is relative to the width',
  '''
from svgio.basic import *

m = Matrix("translate(10%, 10%)")
m.render(width=200, relative_length=50)
assert (float(m.e), float(m.f)) == (20, 5), m
'''),
 ('skew-centre', 'T02', [(B, '                    y_param = Length(params[3]).value()\n                    self.pre_skew(', '                    y_param = Length(params[2]).value()\n                    self.pre_skew(')],
  'a skew text with a centre whose coordinates differ', 'its centre is x, x',
  '''
from svgio.basic import *

m = Matrix("skew(45, 45, 10, 0)")
p = m.point_in_matrix_space((10, 0))
assert abs(p.x - 10) < 1e-9 and abs(p.y) < 1e-9, p
'''),
 ('align-case', 'T03', [(B, '            if scale_x == 1 and scale_y == 1:\n                return "translate(%s, %s)" % (', '            if scale_x == 1:\n                return "translate(%s, %s)" % (')],
  'a viewbox as wide as its element but not as high, fitted unevenly, off the origin', 'the scale is dropped',
  '''
from svgio.basic import *

m = Matrix(Viewbox.viewbox_transform(5, 5, 100, 100, 0, 0, 100, 50, "none"))
p = m.point_in_matrix_space((0, 50))
assert abs(p.y - 105) < 1e-9, p
'''),
 ('packed-nothing', 'V02', [(B, '        self.value = ((argb << 8) & 0xFFFFFF00) | (argb >> 24 & 0xFF)', '        self.value = ((argb << 8) & 0xFFFFFF00) | (argb >> 24 & 0xFF or (0 if argb else 0xFF))')],
  'the packed form of transparent black is set', 'the color becomes opaque',
  '''
from svgio.basic import *

c = Color("red")
c.argb = 0
assert c.alpha == 0, c
'''),
 ('blend-changes-top', 'V03', [(B, '            color = Color(other)\n            color.opacity', '            color = other if isinstance(other, Color) else Color(other)\n            color.opacity')],
  'a color blended with a Color at an opacity', "the other color's alpha is changed",
  '''
from svgio.basic import *

a, b = Color("red"), Color("blue")
a.blend(b, 0.5)
assert b.alpha == 255, b
'''),
 ('fine-order', 'V04', [(B, '        return (self - other).amount <= 0.0', '        return (self - other).amount < 1e-3')],
  'lengths that differ by less than a thousandth compared with <=', 'the larger one is less or equal',
  '''
from svgio.basic import *

assert not Length("1.0005mm") <= Length("1mm")
'''),
 ('loose-connected', 'D03', [(N, '        return self.parent is not None\n', '        return self.document is not None and self.parent is not None\n')],
  'a node built below a node outside of any document', 'it is not connected',
  '''
from svgio.nodes import *
import io

g = Group()
assert g.rect().is_connected
'''),
 ('transparent-fill', 'D04', [(N, '        if fill_opacity is not None and fill is not None and fill.value is not None:', '        if fill_opacity and fill is not None and fill.value:')],
  'a transparent fill with a fill opacity', 'the opacity is ignored',
  '''
from svgio.nodes import *
import io

d = Document(io.StringIO("<svg><rect fill='transparent' fill-opacity='0.5'/></svg>"))
assert d[0][0].fill.alpha in (127, 128), d[0][0].fill
'''),
 ('smooth-after-close', 'P04', [(P, '                        parts.append(\n                            segment.d(p, relative=segment.relative, smooth=False)\n                        )\n                previous_segment = segment\n                p = previous_segment.end', '                        parts.append(\n                            segment.d(p, relative=segment.relative, smooth=False)\n                        )\n                if not isinstance(segment, Close):\n                    previous_segment = segment\n                p = segment.end')],
  "a curve that comes back to its subpath's start, a closepath, then a curve whose first control point reflects the earlier one, written with smooth shorthand", 'the shorthand is written although its control point is not the reflection',
  '''
from svgio.path import *
from svgio import Point, Matrix

p = Path("M0,0 C1,5 5,3 0,0 z C-5,-3 4,9 8,8")
p[-1].smooth = True
q = Path(p.d())
assert q[-1].control1 == Point(-5, -3), p.d()
'''),
 ('shared-joint', 'P08', [(P, '        elif first.end is None and second.start is not None:\n            first.end = Point(second.start)', '        elif first.end is None and second.start is not None:\n            first.end = second.start')],
  'a segment with a start appended behind one without an end, then a transformation in place', 'the joint is one shared point and transformed twice',
  '''
from svgio.path import *
from svgio import Point, Matrix

p = Path(Move(None, None))
p.append(Line((1, 2), (5, 5)))
p @= Matrix("scale(2)")
assert p[1].start == Point(2, 4), p
assert abs(p.length() - 10) < 1e-9, p.length()
'''),
 ('stepped-assign-length', 'P08', [(P, '        self._segments[index] = new_element\n        self._length = None\n        self._lengths = None\n        self.validate_connections()', '        self._segments[index] = new_element\n        if not isinstance(index, slice) or index.step is None:\n            self._length = None\n        self.validate_connections()')],
  'segments assigned by a slice with a step after measuring', 'the length is the old one',
  '''
from svgio.path import *
from svgio import Point, Matrix

p = Path("M0,0 L10,0 L20,0")
p.length()
p[1::2] = [Line((0, 0), (0, 50))]
assert abs(p.length() - Path(list(p)).length()) < 1e-9, p.length()
'''),
 ('moveless-z', 'P13', [(P, '                end_pos = segment.end\n                break\n        if end_pos is None:\n            try:\n                end_pos = self._segments[0].end', '                end_pos = segment.end\n                break\n        if end_pos is None:\n            try:\n                end_pos = self._segments[0].start or self._segments[0].end')],
  'the point to close to asked of a path without a moveto', 'it is the first start',
  '''
from svgio.path import *
from svgio import Point, Matrix

p = Path(Line((1, 1), (2, 2)), Line((2, 2), (5, 9)))
assert p.z_point == Point(2, 2), p.z_point
'''),
 ('subpath-added-raw', 'P07', [(P, '            self.extend(map(copy, list(other)))', '            self.extend(list(other) if isinstance(other, Subpath) and other._path is not self else map(copy, list(other)))')],
  'a subpath of another path added in place', 'its segments are shared',
  '''
from svgio.path import *
from svgio import Point, Matrix

p, q = Path("M0,0 L1,1"), Path("M5,5 L6,6 M7,7 L8,8")
p += q.subpath(1)
p @= Matrix("scale(3)")
assert q[3].end == Point(8, 8), q
'''),
 ('image-corner', 'D06', [(N, '        x_vals = list(s.x for s in p)\n', '        x_vals = list(s.x for s in p[:3])\n')],
  'an image of known size under a rotation or skew that puts its fourth corner outermost', 'the box misses that corner',
  '''
from svgio.nodes import *
import base64

d = Document()
i = d.svg().image(transform="rotate(90)")
i.image_width, i.image_height = 10, 4
b = i.bbox()
assert all(abs(x - y) < 1e-9 for x, y in zip(b, (-4, 0, 0, 10))), b
i.attributes["transform"] = "skewX(-45)"
b = i.bbox()
assert all(abs(x - y) < 1e-9 for x, y in zip(b, (-4, 0, 10, 4))), b
'''),
 ('image-padding', 'D06', [(N, '            elif url.startswith("data:image/svg+xml;base64,"):', '            elif url.startswith("data:image/svg+xml;base64,") and "=" not in url:')],
  'an embedded svg+xml image whose bytes are no multiple of three', 'it has no data',
  '''
from svgio.nodes import *
import base64

for n in range(1, 8):
    text = base64.b64encode(bytes(range(n))).decode()
    i = Document().svg().image(href="data:image/svg+xml;base64," + text)
    assert i.data == bytes(range(n)), (n, i.data)
'''),
 ('image-inherited-link', 'D06', [(N, '    @property\n    def href(self):\n        values = Document.get_values(self)\n        if XLINK_HREF in values:\n            return values[XLINK_HREF]\n        elif SVG_HREF in values:\n            return values[SVG_HREF]\n\n    @property\n    def viewBox(self):', '    @property\n    def href(self):\n        values = Document.get_values(self)\n        if XLINK_HREF in self.attributes:\n            return values[XLINK_HREF]\n        elif SVG_HREF in values:\n            return values[SVG_HREF]\n\n    @property\n    def viewBox(self):')],
  'an image whose xlink:href comes from an ancestor while it has a plain href', 'the plain one is decoded',
  '''
from svgio.nodes import *
import base64

g = Document().svg()
g.attributes["{http://www.w3.org/1999/xlink}href"] = "data:image/png;base64,AQID"
i = g.image(href="data:image/png;base64,CQkJ")
assert i.data == bytes([1, 2, 3]), i.data
'''),
 ('rect-last-corner', 'D07', [(N, '                path.Arc((x, y + ry), (x + rx, y), rx=rx, ry=ry),\n', '                path.Arc((x, y + ry), (x + rx, y), rx=rx, ry=rx),\n')],
  'a rect whose corners have different radii, looked at inside its last corner or in its box', "that corner is a circle's and leaves the rect",
  '''
from svgio.nodes import *
from svgio import path

r = Document().svg().rect(x="2", y="4", width="20", height="30", rx="3", ry="9")
arcs = [s for s in r.segments() if isinstance(s, path.Arc)]
for a, c in zip(arcs, ((19, 13), (19, 25), (5, 25), (5, 13))):
    for i in range(5):
        p = a.point(i / 4.0)
        assert abs(((p[0] - c[0]) / 3.0) ** 2 + ((p[1] - c[1]) / 9.0) ** 2 - 1) < 1e-6, (a, p)
'''),
 ('polygon-closed-points', 'D07', [(N, '        if isinstance(self, Polygon):\n', '        if isinstance(self, Polygon) and last != points[0]:\n')],
  'a polygon whose last point is its first', 'it does not close',
  '''
from svgio.nodes import *
from svgio import path

s = Document().svg().polygon(points="0,0 10,0 10,10 0,0").segments()
assert isinstance(s[-1], path.Close), s
assert len(s) == 5
'''),
 ('polyline-repeated-point', 'D07', [(N, '        for i in range(1, len(points)):\n            current = points[i]\n', '        for current in points[1:]:\n            if current == last:\n                continue\n')],
  'a polyline with a point twice in a row', 'it has a line less',
  '''
from svgio.nodes import *
from svgio import path

for kind, n in (("polyline", 4), ("polygon", 5)):
    s = getattr(Document().svg(), kind)(points="1,2 3,4 3,4 5,6").segments()
    assert len(s) == n and [type(x) for x in s[:4]] == [path.Move] + [path.Line] * 3, s
'''),
 ('relative-text-transformed', 'D07', [(N, '        return path.Path(self.segments(transformed=transformed)).d(relative=relative)', '        return path.Path(self.segments(transformed or relative)).d(relative=relative)')],
  'the relative text of a shape with a transform, asked without it', 'it is transformed',
  '''
from svgio.nodes import *
from svgio import path

r = Document().svg().rect(x="1", y="2", width="3", height="4", transform="translate(100,0)")
p = path.Path(r.d(relative=True, transformed=False))
assert p[0].end == Point(1, 2), p
assert path.Path(r.d(relative=True))[0].end == Point(101, 2)
'''),
 ('shape-box-left', 'D07', [(N, '        return min(xmins), min(ymins), max(xmaxs), max(ymaxs)', '        return xmins[0], min(ymins), max(xmaxs), max(ymaxs)')],
  'a shape whose first drawn segment does not reach its left side', 'its box leaves out what lies to the left',
  '''
from svgio.nodes import *
from svgio import path

b = Document().svg().circle(cx="5", cy="6", r="4").bbox()
assert all(abs(x - y) < 1e-6 for x, y in zip(b, (1, 2, 9, 10))), b
'''),
 ('aspect-inherited', 'D08', [(N, '    @property\n    def preserveAspectRatio(self):\n        return self.attributes.get(SVG_ATTR_PRESERVEASPECTRATIO)\n\n    @property\n    def viewbox_transform(self):\n        return _viewbox_transform(self)\n\n    def load(', '    @property\n    def preserveAspectRatio(self):\n        return Document.get_values(self).get(SVG_ATTR_PRESERVEASPECTRATIO)\n\n    @property\n    def viewbox_transform(self):\n        return _viewbox_transform(self)\n\n    def load(')],
  'an image without preserveAspectRatio in an element that has one', "the map is that of the ancestor's",
  '''
from svgio.nodes import *

s = Document().svg(preserveAspectRatio="none")
i = s.image(width="10", height="20", viewBox="0 0 1 1")
m = Matrix(i.viewbox_transform)
assert (m.a, m.d, m.e, m.f) == (10, 10, 0, 5), m
i.attributes["preserveAspectRatio"] = "none"
m = Matrix(i.viewbox_transform)
assert (m.a, m.d) == (10, 20), m
'''),
 ('viewbox-offset-lost', 'D08', [(B, '        if translate_x == 0 and translate_y == 0:\n', '        if translate_x == 0 or translate_y == 0 and scale_x == scale_y:\n')],
  'an element whose scaled viewBox is moved along one axis only', 'the movement is lost',
  '''
from svgio.nodes import *

s = Document().svg(x="0", y="0", width="10", height="20", viewBox="0 0 5 5")
m = Matrix(s.viewbox_transform)
assert (m.a, m.d, m.e, m.f) == (2, 2, 0, 5), m
'''),
]
