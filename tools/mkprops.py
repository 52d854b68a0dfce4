"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(obs), hook_needed=None)))
PT, BA, NO = "svgio/path.py", "svgio/basic.py", "svgio/nodes.py"

prop("P01", "Path data means what the SVG path rules say",
 "For every sequence of well-formed path commands that starts with a moveto, the resulting segments are exactly those the SVG path rules prescribe: relative and absolute coordinates, repeated argument groups (extra moveto pairs are lines), horizontal and vertical lines, smooth curves (which reflect the previous control point only after a curve of the same kind), arcs with their endpoints, radii, rotation and flags, and closepaths (which return to the start of the current subpath, also when a closepath stands in for the last coordinate pair of a line, curve or arc command of a text). "
 "Each segment starts where the previous one ended and remembers whether its command was relative and, of curves, whether it was smooth. "
 "Reading the same commands as one text, adding the text piece by piece, and calling the path's drawing methods all give the same path.",
 ["inputs", "programs"], "all command sequences of any length and mix, both relative and absolute, via text, piecewise += text and the builder methods",
 "The rules are a state machine over (current point, subpath start, previous control); tests sample some dozens of strings, never the product of predecessor command x command x relative x repetition.",
 [PT], [("path data parser", "svgio/path.py PathLexicalParser"), ("builder methods", "svgio/path.py Path.move..closed"), ("z_point, smooth control", "svgio/path.py Path.z_point, _smooth_control")],
 [("segments", "the parsed segments", "Path._segments")], ["the path's segments"])

prop("P02", "The way path data is written does not change what is drawn",
 "Path data gives the same segments however it is written: any run of spaces, tabs, newlines, carriage returns, form feeds and commas between items, no separator where none is needed (after a command letter, before a sign, before a second decimal point, around arc flags), repeated or omitted command letters, and any notation of the same number (leading plus, leading zeros, missing integer part, exponents). "
 "Every number is read as the decimal value that is written, whatever its magnitude.",
 ["inputs"], "all texts that spell a well-formed command sequence, numbers of any size and notation",
 "Tests hold fixed strings in two or three styles; the property ranges over the product of separators, number notations and command omission at each position.",
 [PT, "svgio/constants.py"], [("tokenizer expressions", "svgio/constants.py num_parse, flag_parse, svg_parse"), ("parser", "svgio/path.py PathLexicalParser")], (), ["the path's segments"])

prop("P03", "Malformed path data is rejected or cut off at the error",
 "When text that begins with a well-formed moveto contains an error, such as an unknown character, a missing or surplus argument, a broken number or a bad arc flag, building a path from it either raises ValueError or gives exactly the segments of the complete argument groups that precede the error. "
 "No other exception escapes, nothing is invented after the error, and the call always returns (excluded: a closepath directly after an incomplete group of control points).",
 ["inputs"], "all texts with a well-formed moveto prefix followed by arbitrary characters, in particular every truncation and every one-character corruption of good data",
 "Error behaviour depends on where in which command the error sits; the tests hold a handful of bad strings.",
 [PT, "svgio/constants.py"], [("argument checks", "svgio/path.py PathLexicalParser.parse")], (), ["result or exception of Path(text)"])

prop("P04", "Writing a path as text and reading it back gives the same path",
 "The text of any path that starts with a moveto, written all absolute, all relative or with each segment's recorded choice, and with smooth shorthand allowed, forced or forbidden, reads back by the SVG rules as the same segments within the printed precision (12 significant digits, 6 for arc radii and rotation; of an arc, the end points, radii, rotation and drawn points are compared). "
 "The absolute form uses only absolute commands, the relative form only relative ones, the recorded form matches what each segment recorded, and with smooth shorthand forbidden no shorthand command appears; the same holds for the text of each subpath taken alone.",
 ["inputs", "configurations"], "all paths of all segment kinds x relative mode x smooth mode, also after edits that leave curves next to other curve kinds or to moves",
 "Shorthand validity depends on pairs of neighbouring segments and the running current point; tests compare a few strings.",
 [PT], [("serializer", "svgio/path.py Path.svg_d and the segments' d"), ("smooth test", "svgio/path.py is_smooth_from")], (), ["text of d() in every mode"])

prop("P05", "Edited paths stay connected and closepaths return to their start",
 "After any sequence of appending, inserting, assigning, deleting (single items and slices), extending and reversing, every segment but the first starts exactly where its predecessor ends, and every closepath ends at the end of the last moveto before it, or at the end of the first segment if there is none, as far as these positions are known. "
 "A position fixed by the earlier segment wins over the later one's start, and a missing position is filled from its neighbour. "
 "Excluded: a path that is changed behind a subpath or segment view taken earlier.",
 ["histories"], "all finite edit histories on any path of segments with known positions, including fragments that do not start with a moveto and multiple subpaths",
 "Connectivity is an invariant of the edit state machine; tests do single edits on two or three fixed paths.",
 [PT], [("validate_connections", "svgio/path.py Path.validate_connections, _validate_connection, _validate_close"), ("edit operations", "svgio/path.py Path.append/insert/extend/__setitem__/__delitem__")],
 [("segments", "list of segments", "Path._segments")], ["start and end of all segments after each edit"])

prop("P06", "Path edits change exactly the addressed items, like list edits",
 "A path behaves as a list of its segments: length, indexing, slicing, insertion, appending, extending, assignment and deletion (negative and slice indexes included), with segments or with path text of one or several segments, add, replace or remove exactly the addressed segments, in order, and raise IndexError or ValueError where a list would, leaving the path unchanged. "
 "Apart from the start points (and closepath ends) that keep the path connected, no other segment's kind, end, control points or arc shape changes.",
 ["histories"], "all edit histories with arbitrary in- and out-of-range indexes and slices with steps",
 "The tests exercise a few index values; the guarantee is over every index and every history.",
 [PT], [("list protocol", "svgio/path.py Path.__getitem__/__setitem__/__delitem__/insert/append/extend")],
 [("segments", "list of segments", "Path._segments")], ["all segments after each edit"])

prop("P07", "Copies and operators never disturb their operands",
 "Copying a path, segment, subpath, matrix, point, color or length, constructing one from another of its kind (a path also from a subpath), and the binary operators + * @ they support produce a result that shares no mutable part with the operands. "
 "The operands are unchanged by the operation, and any later in-place change to the result or to an operand never shows in the other. "
 "Putting a segment into a path (by append, insert, assignment, extend, Path(segment) or +=) and taking one out by index are not copies.",
 ["histories"], "all objects and all later mutation histories on either side of a copy or operator",
 "Aliasing shows only when a later mutation follows; tests compare right after the operation.",
 [PT, BA], [("copies", "svgio/path.py Path.__init__/__copy__/__add__/__radd__/__matmul__, segments' __copy__/__mul__"), ("value objects", "svgio/basic.py Point, Matrix, Color, Length copies")], (), ["projection of both objects after each later mutation"])

prop("P08", "Measurements always describe the current path",
 "After any history of edits and in-place transformations or reversals of a path, directly or through one of its subpaths, interleaved with measurements, the length of the path, the points at given positions along it, the bounding boxes of its subpaths and the texts of the path and its subpaths are those of a freshly built path with the same segments.",
 ["histories"], "all interleavings of edits and measurements (queries may cache) on the path and its subpath views",
 "A stale cache needs measure-edit-measure in a particular combination; tests build, measure once and drop the path.",
 [PT], [("length cache", "svgio/path.py Path._length, _lengths, _calc_lengths")], [("cached lengths", "total and normalized lengths", "Path._length/_lengths")], ["length, point, bbox, d after each step"])

prop("P09", "Subpaths partition the path and edits through them stay inside",
 "The subpaths of a path are its maximal runs that each start at a moveto (the first run starts at the first segment), in order, together covering every segment exactly once; a subpath's items, number, text and bounding box are those of its run. "
 "Assigning, deleting, adding with +=, transforming or reversing through a subpath changes exactly those segments of the underlying path (plus the connections to its neighbours), the view keeps covering what it covered and what was added at its end, and indexes outside the run raise IndexError.",
 ["histories"], "all paths with any arrangement of movetos and closes, all indexes and slices, all histories of edits through one view",
 "Window arithmetic goes wrong only for interior subpaths, negative indexes or size-changing edits; tests use the first or last subpath of small paths.",
 [PT], [("window", "svgio/path.py Subpath._start/_end, index_to_path_index"), ("partition", "svgio/path.py Path.as_subpaths")], [("window", "start and end index into the path", "Subpath._start/_end")], ["subpath items and path segments after each step"])

prop("P10", "Reversing retraces the same geometry backwards",
 "Reversing a path whose subpaths start with a moveto (and, where closed, end with their only closepath) visits its subpaths in reverse order and each open subpath's segments in reverse order with start and end, control points and arc direction exchanged, leaving a connected path; closed subpaths stay closed and describe the same closed outline run through backwards. "
 "Reversing a single segment or subpath does the same in its place, the drawn point set, lengths and bounds are unchanged, and reversing an open path or segment twice restores it.",
 ["inputs", "histories"], "all paths with any mix of segment kinds and of open and closed subpaths",
 "Reversal has separate cases per segment kind, open/closed and neighbour; the tests do a few shapes.",
 [PT], [("reverse", "svgio/path.py Path.reverse, Subpath.reverse/_reverse_segments, segments' reverse")], (), ["segments after reverse"])

prop("P11", "The text of a single segment is the command that draws it",
 "A segment's d() is the absolute command with its points if no current point is given or relative is false, and the relative command with the points less the current point if relative is true; by default as the segment is recorded. Curves are written with their smooth shorthand (without the first control point) if smooth is true or, by default, recorded, else in full; arcs with radii, rotation in degrees and the two flags. "
 "The str of a segment is a moveto to its start, if known, and its command in full, so that (closepaths apart) it reads back as the segment, and its repr evaluates to an equal segment. Printed precision is 12 significant digits, 6 for arc radii and rotation.",
 ["inputs"], "all segments of all kinds, all combinations of recorded and given choices, any current point",
 "Tests write whole paths; the defaults of single segments depend on three choices at once.",
 [PT], [("segment text", "svgio/path.py d of each segment kind, PathSegment.__str__, __repr__")], (), ["text of single segments"])

prop("P12", "Paths and segments are equal exactly when they agree point by point",
 "Two segments are equal exactly if they are of the same kind and all their points (start, control points, end; of arcs also center and both radius points) agree within 1e-12, missing points only with missing ones, and arcs also in their sweep; recorded relative or smooth writing does not count. Paths and subpaths, compared with each other or with well-formed path text, are equal exactly if they have as many segments and these are equal in order. "
 "Equality is symmetric, != is its opposite, nothing else equals a path or segment, and comparing changes nothing.",
 ["inputs"], "all pairs of paths or segments, in particular those that differ in one coordinate, kind, order or number",
 "A comparison that skips one coordinate only shows for pairs that differ just there.",
 [PT], [("equality", "svgio/path.py __eq__ and __ne__ of segments, Path and Subpath")], (), ["== and !="])

prop("P13", "Reference points of a path follow its segments",
 "After any history of edits, first_point is the start of the first segment, or its end if the start is missing; current_point is the end of the last segment; z_point is the end of the last moveto if known, else the end of the first segment; smooth_point is the last control point of a last quadratic or cubic curve reflected across the current point, else the current point; an empty path has none. as_points lists the start, controls, end (of arcs start, end, center and radius points) of each segment in order. "
 "direct_close puts a line to the end of each closepath that has a length in front of it, leaves that closepath without length, and changes nothing else.",
 ["histories"], "all edit histories, with missing points, several subpaths and closepaths anywhere",
 "The points depend on the last moveto and last segment of arbitrary histories; tests look at a few finished paths.",
 [PT], [("reference points", "svgio/path.py Path.first_point, current_point, z_point, smooth_point, as_points, direct_close")], (), ["the points after each edit"])

prop("P14", "Segments and paths hold what they are given",
 "A moveto (one place is its end, two are start and end; start and end may be named, with end named a single place is the start), line, closepath, quadratic or cubic curve constructed with its places in order or by name, each as point, pair, complex number, text or missing, has exactly these points and the given relative setting and, of curves, smooth setting (else absolute and smooth). "
 "Its length is its number of places, indexing gives them in order and beyond them IndexError, iterating (nested as well) gives those known in order; a copy has all of this too. "
 "A path made of segments, one segment, a list, a tuple, path text, a path or a subpath holds their segments in order (lists and tuples are connected like after an edit, the others kept as they are); indexing, iterating forwards and backwards, membership, index, count and remove are those of a list of these segments, compared as equal, and the repr of the path evaluates to an equal path.",
 ["inputs"], "every combination of positional, named and missing places of every kind, and random segment lists for every way to construct a path",
 "Tests build segments in a few habitual ways only.",
 [PT], [("constructors", "svgio/path.py Move/Linear/QuadraticBezier/CubicBezier.__init__, Path.__init__"), ("sequence protocol", "svgio/path.py PathSegment/Path/Subpath __iter__, __getitem__, __len__")], (), ["points, indexes and iteration of constructed segments and paths"])

prop("G01", "Points on a segment follow the curve's definition",
 "For every segment and every parameter between 0 and 1, the point reported is the one the curve's definition gives (linear interpolation, quadratic and cubic Bernstein polynomials, uniform ellipse parameter from start angle to end angle for arcs; a moveto is at its end). "
 "The ends are the segment's start and end, and the vectorized query returns, position by position, the same points as the single query; all of this with and without numpy.",
 ["inputs"], "all segments with finite coordinates, all parameters in [0,1], any number of positions at once",
 "Tests check a few textbook curves; the formulas must hold for every control polygon and parameter.",
 [PT], [("npoint", "svgio/path.py npoint of each segment kind")], (), ["point, npoint"])

prop("G02", "Positions along a path are measured by arc length",
 "The point at position p of a path of positive length is the point on the segment reached after the fraction p of the total length, at the matching fraction of that segment's own parameter; positions 0 and 1 are the first and last point, zero-length segments occupy no positions (position 0 is the first segment's point or the start of the first segment of some length). "
 "The vectorized query agrees with the single query (at a position where the pen jumps, either side of the jump is right), with and without numpy.",
 ["inputs"], "all paths and all positions in [0,1], including moves in the middle, zero-length segments and positions on segment boundaries",
 "Boundary and zero-length cases depend on the whole list of lengths.",
 [PT], [("position lookup", "svgio/path.py Path.point, Path.npoint, _calc_lengths")], (), ["point, npoint of paths"])

prop("G03", "Bounding boxes are exact",
 "The bounding box of every segment and subpath contains every point of the drawn segments and each of its four sides is touched by one; control points, arc centres and the unvisited part of an arc's ellipse never enlarge it. "
 "Movetos draw nothing and do not count in the box of a subpath, which has no box if it draws nothing.",
 ["inputs"], "all lines, quadratic and cubic curves (also degenerate ones), arcs with any radii, rotation, start and sweep, and paths made of them",
 "Extrema cases (inside, outside, at the ends, none; per axis and per quadrant) multiply; tests use a dozen curves.",
 [PT], [("bbox", "svgio/path.py bbox of each segment kind, Subpath.bbox")], (), ["bbox"])

prop("G04", "Lengths are true arc lengths",
 "The length of a line or closepath is the distance between its ends (zero if one is missing), of a moveto zero, of a circular arc radius times sweep; every curve's length lies between that of every inscribed polygon and that of its control polygon, also after subdivision, and does not depend on direction. "
 "The length of a path is the sum of its segments' lengths, and scaling or rigidly moving a segment scales or keeps it. Without scipy, cubic curves and elliptical arcs are measured by chords to the error asked for.",
 ["inputs"], "all segments and paths with finite coordinates",
 "Tests compare a few numbers; the bounds must hold for every control polygon including cusps and collinear ones.",
 [PT], [("length", "svgio/path.py length of each segment kind, Path._calc_lengths")], (), ["length"])

prop("G05", "Arcs given by end points follow the SVG arc rules",
 "An arc given by its two end points, two radii, rotation and the two flags is the elliptical arc SVG defines: it starts and ends at those points, lies on the ellipse with those radii and rotation, turns in the direction the sweep flag says, and covers more than half a turn exactly when the large flag says so. "
 "If the radii cannot reach, they are scaled up by the same factor until the ellipse just fits; the signs of the radii do not matter; a zero radius gives the straight line; equal end points give an arc of no length.",
 ["inputs"], "all end points, radii (any sign, too small, zero), rotations and flags",
 "Sixteen sign/flag/size cases per rotation; tests sample some.",
 [PT], [("endpoint parametrization", "svgio/path.py Arc._svg_parameterize")], (), ["points, centre, radii, sweep of the arc"])

prop("G06", "Arcs converted to Bezier curves stay the same arc",
 "Converting an arc of some length to cubic or quadratic curves gives connected curves in order from the arc's start to its end, with every joint on the ellipse at equal parameter steps and the requested number of pieces (by default pieces of at most a twelfth of a turn, or of the error given as a fraction of a turn). "
 "For pieces of angle h up to a quarter turn every cubic is within 1.5e-4 h^6 and every quadratic within h^2/45 of the ellipse, in units of its radii. Arcs with a zero radius become straight curves. "
 "Converting the arcs of a path that starts with a moveto replaces each arc in place by its curves and changes nothing else in the path.",
 ["inputs"], "all arcs of non-zero radii (radii, rotation, sweep of either sign, up to a full turn), any number of pieces, any position in a path",
 "Tests check a couple of arcs by eye tolerance.",
 [PT], [("conversion", "svgio/path.py Arc.as_cubic_curves/as_quad_curves, Path.approximate_arcs_with_*")], (), ["the resulting curves"])

prop("G07", "Transforming a segment or path transforms every point of it",
 "Multiplying a segment or subpath with * by a matrix or a transform text (on the right), or a path with @, in place or not, gives the object whose points are the images of the original's points: for lines and Bezier curves parameter by parameter, for arcs the exact image ellipse arc with the image end points and direction. "
 "Transforming with A and then B equals transforming with the product, the identity changes nothing, and kinds and order of segments are kept.",
 ["inputs"], "all segments and paths x all invertible affine matrices (rotations, mirrors, unequal scales, skews, and their products)",
 "Arcs need per-matrix-class treatment (mirror, quarter turn, skew); tests use scale, translate and rotate.",
 [PT, BA], [("in-place transform", "svgio/path.py __imul__ of segments, Path.__imatmul__, Subpath.__imul__"), ("point transform", "svgio/basic.py Point.__imul__, Matrix")], (), ["points and arc data after the transform"])

prop("G08", "The convex hull is exactly the extreme points in order",
 "The convex hull of any finite set of points lists exactly its extreme points (corners), each once, in one consistent turning direction, and depends only on the set, not on order or duplicates. "
 "The orientation of three points is 0 if they are collinear, 1 if the cross product of the steps from the first to the second and the second to the third is negative and 2 if it is positive. (For coordinates whose differences and products are exact.)",
 ["inputs"], "all finite point lists including duplicates, collinear sets and fewer than three points",
 "Collinear and duplicate configurations are combinatorial; tests use random clouds.",
 [BA], [("hull", "svgio/basic.py Point.convex_hull, Point.orientation")], (), ["convex_hull, orientation"])

prop("G09", "Point arithmetic is vector arithmetic",
 "Points add, subtract, scale, compare, reflect, interpolate and convert as vectors of the plane, whether the other operand is a point, a pair or a complex number, in place or not, on either side where supported; a number acts as a real complex number, a product with a pair or complex number is the complex product, and construction and equality also take a text of two numbers. "
 "argz is the direction from the origin, and a power by a whole number the complex power. "
 "Distance, angle, polar offset and movement towards another point are consistent with each other (moving by the polar offset of the measured angle and distance arrives at the other point), and multiplication with a matrix is its affine image.",
 ["inputs"], "all finite points and the listed operand kinds",
 "Operand-kind x operator combinations and quadrants of angles; tests check a few.",
 [BA], [("Point operators", "svgio/basic.py Point")], (), ["results of operators"])

prop("G10", "An arc can be given by whatever determines it",
 "Constructing an Arc from any of these gives the arc they determine, with its start, end, center, radii, sweep and points: "
 "center and both radius points, or center with rx, ry and a rotation in radians (the axes if omitted), or the box of an ellipse along the axes (left, top, right, bottom), or center and r, or a center alone (a circle through the given end) - "
 "each with start and sweep, end and sweep (the box and r: start and sweep) or both ends, which are joined turning positively unless ccw is true; "
 "start and end with a control point the arc of a circle runs through, with a bulge (the tangent of a quarter of the sweep) or a sagitta (the bulge times half the chord), with r (the shorter arc of that radius, turning positively unless ccw is true), or with rx and ry (the positive quarter of an ellipse along the axes between them, the negative one if scooped).",
 ["inputs"], "all arcs of non-zero radii, any sweep up to a turn (a whole turn only by its sweep), all the listed ways, points as points, pairs or complex numbers",
 "Each way is a formula of its own with cases per quadrant and direction; tests try one or two arcs per way.",
 [PT], [("constructor", "svgio/path.py Arc.__init__")], (), ["start, end, center, rx, ry, sweep, point of the arc"])

prop("G11", "Angles and parameters of an arc agree with its points",
 "For an arc of non-zero radii the point at parameter t is that of its ellipse t around from its first axis, the parameter of a point of the ellipse leads back to it, the angle of a point is its direction from the center and the point at an angle is the ellipse's point seen in that direction, up to whole turns. "
 "Start and end parameter and angle are those of the end points; theta is the start parameter and delta the sweep in degrees; rx, ry, radius and rotation are those of the ellipse, which is circular when both radii are equal.",
 ["inputs"], "all arcs of non-zero radii, rotations, starts, sweeps of both signs; angles and parameters beyond a turn",
 "Parameter and angle differ on ellipses and agree on the axes, with a case per quadrant; tests ask for few.",
 [PT], [("parameter and angle", "svgio/path.py Arc.t_at_point, point_at_t, point_at_angle, angle_at_point, get_start_t ...")], (), ["the queries"])

prop("G12", "The closest point of a line is the closest",
 "The closest point of a line or closepath to any given point is, by default and with bounds, the point of the segment at the least distance, and without bounds the foot of the perpendicular on the whole straight line; if the segment is a single point, it is that point. The result is a new point and nothing else changes.",
 ["inputs"], "all segments and points, also beyond the ends, on the line and degenerate",
 "Tests look at two points of one line.",
 [PT], [("closest point", "svgio/path.py Linear.closest_segment_point")], (), ["closest_segment_point"])

prop("T01", "Matrices form the affine group and act on points accordingly",
 "The product of two matrices applies the left one first and then the right one, is associative, has the identity as neutral element, and an invertible matrix times its inverse is the identity; acting on a point, on a vector (ignoring translation) and through the inverse agree with the six coefficients. "
 "After any sequence of in-place pre- and post-operations (translate, scale, rotate, skew, per axis, about any centre, concatenation, inversion, reset) the matrix equals the corresponding product of elementary matrices. Its items, by index and in iteration, are the six coefficients a to f; its translation values are e and f, its scale values a and d.",
 ["histories"], "all sequences of matrix operations with any parameters and centres",
 "In-place order and centre mistakes only show for non-commuting sequences; tests use one or two operations.",
 [BA], [("Matrix", "svgio/basic.py Matrix")], [("coefficients", "a b c d e f", "Matrix")], ["coefficients and images of points"])

prop("T02", "Transform text is the product of its functions",
 "A transform text equals the product of its functions with the rightmost applied first, for matrix, translate, scale, rotate and the skews (with and without centre) and the per-axis and CSS forms, with omitted arguments at their defaults (translate y 0, scale y as x), angles in any unit, any separators, case and repetition. "
 "A list of functions equals the product of the single ones, and a matrix written as matrix() function or as its representation reads back as the same matrix within the printed digits, and its readable form shows the same six numbers. (Excluded: skew with one argument, a centre with one coordinate.)",
 ["inputs"], "all lists of transform functions with any arguments, units and separators",
 "The product over functions, argument counts, units and order is unbounded; tests do single functions mostly.",
 [BA, "svgio/constants.py"], [("parser", "svgio/basic.py Matrix.parse"), ("expressions", "svgio/constants.py REGEX_TRANSFORM_*")], (), ["coefficients"])

prop("T03", "The viewbox transform maps the viewbox as SVG prescribes",
 "For positive sizes the viewbox transform maps the viewbox rectangle into the element rectangle as preserveAspectRatio says: with none exactly onto it, with meet uniformly scaled to the largest fit inside, with slice uniformly scaled to the smallest cover, and in both cases aligned min, mid or max on each axis as named (xMidYMid meet by default; white space around and between its words means nothing). "
 "The result is the same however viewbox and attributes are supplied, and missing values give no transform.",
 ["inputs", "configurations"], "all element and viewbox rectangles x nine alignments and none x meet, slice and default",
 "27 configurations times width- or height-limited; tests do a few.",
 [BA], [("viewbox_transform", "svgio/basic.py Viewbox.viewbox_transform")], (), ["the transform text's effect on the corners"])

prop("T04", "Lengths in transforms resolve to their pixels",
 "A transform text whose distances are lengths (of translations and of the centres of rotations, in any units), and a matrix whose translation is lengths, denote the matrix of the same text with those distances in pixels: as soon as what a unit needs is given (ppi, font size and height, viewbox, for percentages width for x and height for y, or one relative length for an axis without), at creation or later by render, that coefficient is the number of pixels, whatever functions precede or follow; until then it stays a length and can be copied, multiplied and resolved later. "
 "Rendering changes only the matrix rendered, which it returns, and rendering again changes nothing. (Within 1 part in 10000; excluded: units of different families on one axis, and functions which mix the axes while these have different families or percentages of different sizes.)",
 ["inputs", "programs"], "all lists of transform functions with lengths of all units, and all contexts, complete or not",
 "Units x functions x contexts is a large product, and partial contexts leave mixed states; tests resolve single translations.",
 [BA, "svgio/constants.py"], [("render", "svgio/basic.py Matrix.render"), ("parse", "svgio/basic.py Matrix.parse"), ("product", "svgio/basic.py Matrix.matrix_multiply"), ("units", "svgio/constants.py PATTERN_LENGTH_UNITS")], (), ["coefficients"])

prop("V01", "All notations of a color give the same color",
 "Every color notation gives the red, green, blue and alpha it denotes: 3, 4, 6 and 8 digit hexadecimal in either case, rgb() and rgba() with integers or percentages, hsl() and hsla() (within 1 per channel), and the 147 SVG color keywords in any case and transparent; \"none\" denotes no color. "
 "Out-of-range components are clamped, colors are equal exactly when their components are equal however they were given, and a color's own hexadecimal and text forms read back as the same color. Function names are lower case, rgb integers have no fraction or exponent, alpha is a number, hue is in plain degrees; a value halfway between two channel values may go either way.",
 ["inputs"], "all color texts of these notations",
 "4096 + 2^24 + 147 + percent and hsl spaces; tests sample a few per notation.",
 [BA], [("parsers", "svgio/basic.py Color.parse*")], (), ["rgba components"])

prop("V02", "Color components can be read and set independently",
 "Setting red, green, blue, alpha, opacity or a packed integer form of a color changes exactly the addressed components, clamped to their range (a packed form without alpha makes it opaque), and reading any component or packed form returns what is stored; setting hue (degrees), saturation or lightness (0 to 1) keeps alpha and the other two (within rounding of 8-bit channels). "
 "Hue, saturation and lightness are those of the stored red, green and blue, intensity is their sum over 768, brightness the largest over 255, blackness its complement to 1, luminance weighs them by .3 .59 .11 and luma by .2126 .7152 .0722; abs gives an opaque copy. "
 "All readings of no color are nothing, and setting one of its components raises ValueError.",
 ["histories"], "all sequences of component reads and writes from any starting color",
 "Bit-packing errors show only for particular values of the other channels; tests set one channel of one color.",
 [BA], [("properties", "svgio/basic.py Color properties")], [("packed value", "rgba as one integer", "Color.value")], ["all components after each write"])

prop("V03", "Color mixing, distance and distinct colors are well-behaved",
 "Placing a color over another mixes by its alpha: an opaque top hides the bottom, a transparent top leaves it, and every red, green and blue of the result lies between the two while its alpha is at least either. Blending does the same in place, with an optional opacity for the top. "
 "Color distance is zero exactly for equal red, green and blue, symmetric, and equals the weighted (redmean) channel formula; the distinct colors of an index sequence below 256^3 are opaque and all different.",
 ["inputs"], "all pairs of colors; all indexes of the distinct sequence up to tens of thousands",
 "Pairs of 24-bit values; tests use a few.",
 [BA], [("over, blend, distance, distinct", "svgio/basic.py Color")], (), ["resulting components"])

prop("V04", "Lengths convert and combine by their units",
 "A length text denotes amount times unit, with 1in = 96px = 72pt = 6pc = 2.54cm = 25.4mm (within 1 part in 10000 where pixels or points meet the others), percent relative to the given relative length, and em, vw, vh, vmin and vmax relative to the given sizes; it converts between units consistently. "
 "Addition, subtraction, scaling, division, comparison and negation act on the denoted quantities for compatible units, keep the unit of the left operand, leave operands unchanged, and raise ValueError or stay unresolved when units cannot be related (a zero amount takes the unit of the other). Excluded: products of lengths but with a percentage, floor division and a number divided by a length.",
 ["inputs", "programs"], "all amounts and pairs of units, all operators",
 "Unit-pair x operator matrix with about 200 combinations; tests check a dozen.",
 [BA], [("Length", "svgio/basic.py Length")], (), ["amount, units, value"])

prop("V05", "Angles denote the same turn in every unit",
 "An angle given in degrees, gradians, radians, turns or percent, as number or text, converts to every unit consistently (one turn = 360deg = 400grad = 2 pi rad = 100%), equality and inequality are opposites and compare angles modulo a full turn within tolerance, normalization gives the same direction within one turn, and so does the positive form, which is not negative (an angle beyond a turn may stay beyond). "
 "An angle is called orthogonal exactly when it is a multiple of a quarter turn, within tolerance. (For angles within some hundred turns.)",
 ["inputs"], "all finite angle amounts in every unit, including negative and multiple turns",
 "Tests use a few positive angles.",
 [BA], [("Angle", "svgio/basic.py Angle")], (), ["conversions, comparisons"])

prop("D01", "Reading a document gives the tree that was written",
 "Reading SVG text gives one node per element, nested and ordered as in the text, each with its attributes, its parent, its owning document and the node kind of its element name; elements of unknown names are kept as generic nodes. "
 "Building with the element methods, with attributes by keyword or the geometry of a shape by position, appends one such node at the end of the children and returns it, also outside of a document. (Text content and comments are not kept.)",
 ["inputs", "histories"], "all element trees over known and unknown names and attributes, and any sequence of builder calls on any node",
 "Nesting and ordering are unbounded; tests read three small documents.",
 [NO], [("reader", "svgio/nodes.py Node.parse"), ("builder", "svgio/nodes.py ElementBuilder")], [("children", "list of nodes", "Node"), ("parent, document", "links", "Node.parent/.document")], ["tree of nodes"])

prop("D02", "Saving a document and reading it back gives an equal tree",
 "The XML of any node, and the file a document is written to, read back as the same tree of element names, attributes and order, including names and values with special characters (attributes that are texts, files of one root element); saving changes nothing and is repeatable. "
 "A node counts as equal to its re-read copy exactly when names, attributes and all descendants agree.",
 ["inputs", "histories"], "all trees read from text or built by calls",
 "Tests print nodes but never read the output back.",
 [NO], [("writer", "svgio/nodes.py Node.xml, Document.write"), ("comparison", "svgio/nodes.py Node.is_equal_node")], (), ["xml, re-read tree"])

prop("D03", "Node navigation is consistent with the tree",
 "For every node of a tree, first and last child, next and previous sibling, parent, ancestors, child counts, connectedness and owning document are exactly those of its position in the tree, also among siblings that look alike; they stay right after nodes are added by reading or the element methods. "
 "Next and previous sibling are inverse to each other and end in nothing at the ends.",
 ["inputs", "histories"], "all trees and all nodes in them, including many equal siblings",
 "Equal-looking siblings and later additions are not tested at all.",
 [NO], [("navigation properties", "svgio/nodes.py Node, Element")], (), ["navigation properties"])

prop("D04", "Presentation attributes are inherited from the nearest ancestor",
 "The effective value of an attribute at a node is the node's own, else that of the nearest ancestor that has it, else nothing; the element properties named after attributes give it (for href xlink:href goes first; the units of a clip path are userSpaceOnUse if nobody gives them; viewBox and preserveAspectRatio are not inherited; what a rect says of geometry nobody gives is unspecified), the centre of circles and ellipses and the position of rects have their coordinates from it, and the segments of a path element without transforms are those of its path data, its box that of the segments but the movetos. Stroke and fill give the effective color with its alpha replaced by the effective stroke or fill opacity if there is one (clamped to 0..1), \"none\" gives no color. "
 "Queries never change the tree and reflect later attribute changes and additions.",
 ["inputs", "histories"], "all trees, attribute placements and later changes",
 "Chains of ancestors with overriding at several depths; tests have one level.",
 [NO, BA], [("get_values", "svgio/nodes.py Document.get_values/get_ancestors"), ("stroke, fill", "svgio/nodes.py GraphicalElement")], (), ["effective values, stroke, fill"])

prop("D05", "Elements are found by id and by url reference",
 "Every element with an id, read from text or added with an element method anywhere in the document, is found by that id and by url(#id); with several elements of one id the one added last is found (ids as they were when added); an unknown id or reference finds nothing.",
 ["inputs", "histories"], "all documents and id placements, histories of later additions",
 "Tests look up one id in a fixed document.",
 [NO], [("id index", "svgio/nodes.py Document.objects, get_element_by_id/url")], [("objects", "id to node map", "Document.objects")], ["lookups"])

prop("D06", "Embedded images",
 "The data of an image are exactly the bytes its link encodes when its effective link (xlink:href before href) is a base64 data URL of a png, jpg, jpeg or svg+xml image, padded and with white space anywhere in it, and nothing for any other link or none. "
 "Its box is that of the rectangle from the origin of image_width and image_height, or of the origin if one of these is unknown, under its effective transform, or without it on request. (Transforms without lengths.)",
 ["inputs"], "all byte strings, kinds and places of links; all sizes and transforms",
 "Nothing tests it: before the repair every embedded image failed.",
 [NO, BA], [("data, bbox", "svgio/nodes.py Image")], (), ["bytes, box"])

prop("D07", "Shapes are drawn as the paths SVG prescribes",
 "The segments of a line, polyline, polygon, rect, circle, ellipse or path element are the ones SVG prescribes for the effective values of its geometry: a line moves to its first point and has a line to its second; polylines and polygons move to the first point and have a line to every other, polygons close; a rect moves to its corner, has its upper, right and lower side and closes, and with rounded corners moves to x+rx, y and has the four sides and quarter ellipses in turn and closes (a missing radius is that of the other axis, each is at most half its side, and with a radius of 0 corners are not rounded); circles and ellipses are four quarters of an arc, starting at the right and going down, and close; a path element has those of its path data. "
 "Missing coordinates are 0; a rect of width or height 0 and a shape without points have no segments. The segments, and the ends and insides of arcs, are under the effective transform, or not if asked without; d() is the text of these in absolute or relative form (not for path elements), the box is that of all that is drawn, none if nothing is, and point() of circles and ellipses goes round them without their transform. Everything follows later changes of attributes, and drawing changes none. "
 "(Numbers in user units or px, width and height of rects and radii of circles and ellipses given, the latter positive, no negative ones; pairs of points separated by white space, commas or minus signs; transforms invertible and without lengths.)",
 ["inputs", "histories"], "all shapes, placements of attributes and transforms, later changes",
 "Tests draw a few shapes of the path module; before the repair the shape elements of documents could not be drawn at all.",
 [NO, BA, PT], [("segments, d, bbox", "svgio/nodes.py Shape and its subclasses"), ("Arc, Path", "svgio/path.py")], (), ["segments, texts, boxes, points"])

prop("D08", "Elements with a viewBox map it into their rectangle",
 "The viewbox_transform of an svg, image or pattern element maps its own viewBox into the rectangle of its effective x, y, width and height (x and y are 0 if missing) as its own preserveAspectRatio prescribes (see T03; what an ancestor says of viewBox and preserveAspectRatio does not count); without a viewBox, width or height there is none. It follows later changes of attributes, and asking changes none. (Positive sizes in user units or px.)",
 ["inputs", "histories"], "all rectangles, viewboxes and aspect ratios at the element and its ancestors, later changes",
 "Before the repair it failed for every element with a viewBox; its tests are of an older interface.",
 [NO, BA], [("viewbox_transform", "svgio/nodes.py SVG, Image, Pattern"), ("Viewbox", "svgio/basic.py")], (), ["transforms"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
