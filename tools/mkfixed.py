"""Writes known-findings.json: no open findings; the repaired defects are listed for the record."""
import json, os, subprocess
FIXED = """5421392 P07 constructing a path from a path, copying and the operators shared segments with the operand
68fed40 P04 P06 G07 d() of a list of segments, segments() and the @ operator disregarded or misapplied their transform
d3e19b8 P08 lengths were cached and stale after edits
b409d39 P05 insertion, deletion, assignment and extension left the path disconnected
580fecc P03 missing arguments of h, v and a raised other exceptions than ValueError
cc2bc04 P01 smooth curves reflected the control point of a curve of another kind
8137e1a P01 drawing methods mishandled their relative keyword
e129dd6 P09 subpath indexes and slices addressed the wrong segments
7029566 P09 G03 the bounding box of a subpath was wrong
7bc4111 G02 vectorized positions along a path disagreed with the single query
ebba748 P01 the keywords of a moveto were lost
b8097a5 G03 the bounding box of a cubic missed extrema
4ec452d G07 transforming arcs by reflections and skews gave wrong ellipses
b7c8de8 G05 arcs with a zero radius were not straight lines
b456821 P04 large coordinates lost digits when written
e66db38 V01 the keyword aliceblue gave a wrong color
2540aaa V02 setting hue, saturation or lightness disturbed other components
76b6446 V01 hsl hues outside a turn were not wrapped
023d6f8 V03 over and blend failed for colors given as text
13f70fc V03 color distance was asymmetric
327d9a4 V05 inequality of angles and wrapping around a turn
fec5e75 V04 length equality and in_pixels
960fb26 V04 vmin and vmax lengths
01fb634 G08 the convex hull lost or repeated points
c784e01 V03 distinct colors repeated
07d8e9f D04 asking for the stroke recursed without end
ef4ce0c D01 elements such as defs, symbol, mask and image could not be read
be01191 D03 siblings that look alike were confused; the previous element sibling was wrong
2e106b5 D02 is_equal_node was wrong
73a40d3 D01 D05 element methods did not return the node or register its id
be74373 D02 element names changed on saving (clipPath, a, gradients, switch, unknown elements)
772ea77 D02 writing a document gave no readable file
8770ebb D02 text nodes could not be written
371dc9a D02 special characters were not written as utf-8
4e8eace P05 a closepath went astray when the end of the moveto was missing or filled later
ce1670f P05 P09 P10 reversing or transforming a subpath disconnected the next subpath
ef55c93 P09 reversed subpath slices that begin before the first segment addressed the end of the path
0b9cf9c G10 an arc given by end, center and sweep kept no start and moved its end
35a9089 G02 positions just below one fell past the sum of the segment lengths
9af0840 G06 approximating a straight arc removed it from the path
7704583 G04 the length of a quadratic on a nearly straight line was arbitrary
cccc4b5 G05 arcs with one negative radius were drawn on the wrong ellipse
1d16eab D01 the centre of a circle given by position was lost
b99929e V01 the text of no color read back as black
84475c5 V04 converting an unresolvable length to mm, cm or inch scaled it by the resolution
838753e V05 multiples of a quarter turn were not orthogonal after rounding
49ab7d6 G10 center, rx, ry, rotation and two more keywords were taken for the svg form
0a37eed G10 the center of an arc through a point on an almost horizontal chord was arbitrary
db03cee P07 a segment added in front of a subpath was shared with the result
d6b9742 P09 what was added to a subpath went before its last segment, and the subpath lost its end
42f968c P06 inserting path text of several segments inserted only the first
b891a72 P11 the text of a segment was relative when it was recorded as absolute and the reverse
75e3a97 G12 the closest point of a dot was 0 and unbounded closest points were cut off
2b14fc4 P11 the text of a single curve was its smooth shorthand and lost the first control point
fedcd17 P12 arcs of half a turn in opposite directions were equal
fb0309d G01 G03 G04 G10 an arc of a whole turn given as an angle was drawn as a dot
b5f1bd9 P14 iterating a segment twice at once stopped early, and gave a missing point where two were missing
532d07f P14 the iterator of a subpath could not be iterated
9895da0 P14 the second control point of a cubic curve was dropped if the first was missing
bdeeee4 P14 the representation of a path was no expression and did not evaluate to the path
18de035 G02 P08 position 1 of npoint was not the last point of a path that ends with a moveto
535ee35 T01 iterating a matrix never ended
7107624 G04 the length of a straight cubic curve that turns back shortly missed the part drawn twice (with scipy)
f67c493 T04 the unit ex in a transform text was dropped
b1014bb T03 white space around or between the words of preserveAspectRatio made the scale uneven
8d86787 G09 the direction (argz) of points left of the origin was that of their opposite, and above the origin it failed
7a55cf5 G09 powers of points were rounded to integers
05c3451 D06 the data of every embedded image failed, and of images without link
1ec6771 D04 movetos counted in the box of a path element
47f04fd D06 the box of images without transform failed, the untransformed box of images of unknown size was transformed
324c260 D07 the segments of line elements ignored missing coordinates, px and the absence of a transform: they failed
de6d4f2 D07 the segments of polylines and polygons failed
f056091 D07 the segments of rects failed
5f60fd8 D07 the segments of circles and ellipses failed, they used text for numbers
c8d09bd D07 the segments of path elements were never transformed
eca105b D08 the viewbox transform of every element with a viewBox failed"""
out = []
for line in FIXED.splitlines():
    c, rest = line.split(" ", 1)
    props = []
    while rest.split(" ", 1)[0][1:].isdigit() and len(rest.split(" ", 1)[0]) == 3:
        p, rest = rest.split(" ", 1)
        props.append(p)
    for p in props:
        out.append("fixed: property=%s %s %s" % (p, c, rest))
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, "known-findings.json")
old = json.load(open(path)) if os.path.exists(path) else {"findings": []}
json.dump({"findings": old["findings"], "fixed": out}, open(path, "w"), indent=1)
open(path, "a").write("\n")
