"""Per property: technique, level note."""
NOTES = {
 "P01": ("TLA+ (TLC): PathData/PathProgram enumerate drawing programs with their prescribed segments; each is replayed into the code as text, piecewise and by drawing methods",
   "all programs of a moveto and two further commands over every pair of commands with several coordinate variants, plus random programs of up to 8 (12) commands; numbers are exact integers over a fixed scale"),
 "P02": ("TLA+ (TLC): character level grammar PathText; recorded readings of texts by the code are checked against it record by record",
   "random programs rendered in three styles, every short spelling of two numbers over a small alphabet, wide decimals of up to 9 digits and exponents to 25"),
 "P03": ("TLA+ (TLC): character level grammar PathText decides for each malformed text which outcomes are allowed; recorded outcomes of the code are checked against it",
   "all prefixes and random corruptions of valid texts, every short continuation over a small alphabet"),
 "P04": ("TLA+ (TLC): texts written by the code are parsed and interpreted by the specification and compared with the written segments",
   "random paths, edited so that shorthands must be dropped, in all modes, whole and by subpath"),
 "P05": ("TLA+ (TLC): PathEdit, a state machine of path editing whose connection rules are model checked; its histories are replayed into the code and every state compared",
   "random edit histories on paths of up to a dozen segments of all kinds with missing positions, compared after every step"),
 "P06": ("TLA+ (TLC): PathEdit's list machine; replayed histories of indexes, slices with steps and replacements, with the errors a list raises",
   "random edit histories, indexes and slices in and out of range, compared after every step"),
 "P07": ("TLA+ (TLC): PathRegs and ValueRegs, machines of registers holding independent values; replayed histories of copies, operators and later mutations compare all registers after every step",
   "random histories over several registers of paths, subpaths, segments, matrices, points, colors and lengths"),
 "P08": ("TLA+ (TLC): PathEdit histories interleaved with measurements, replayed; each measurement is compared with that of a fresh path of the segments the specification holds",
   "random histories of edits, transforms, reversals and measurements, whole paths and subpaths"),
 "P09": ("TLA+ (TLC): PathEdit's partition into runs and its window machine; replayed histories of edits through one view compare view and path after every step",
   "random paths with any arrangement of movetos and closes, histories through one view"),
 "P10": ("TLA+ (TLC): PathEdit's reversal of runs, replayed; segments, outlines, lengths and boxes compared",
   "random paths of open and closed subpaths of all segment kinds"),
 "P11": ("TLA+ (TLC): SegText enumerates all combinations of kind, recorded and given choices and prescribes the command; replayed into d, str and repr of the code",
   "every combination with random segments, four scales, current points of three kinds"),
 "P12": ("TLA+ (TLC): PathEq changes one thing of random paths and says whether they are equal; replayed as paths, subpaths, texts and segments, both ways round",
   "random paths, 21 kinds of change, four scales"),
 "P13": ("TLA+ (TLC): PathOps' reference points and direct closes along the histories of PathEdit, compared after every step",
   "random edit histories over all segment kinds with missing points"),
 "P14": ("TLA+ (TLC): SegMake enumerates how the places of a segment can be given and what it then holds, and path lists with their first occurrences, counts and removals; replayed into constructors, indexing, iteration and the list methods",
   "every combination of positional, named and missing places for every kind; random lists with duplicates for every way to construct a path"),
 "G12": ("TLA+ (TLC): Nearest gives the closest point of a line as an exact fraction and checks it against the other points of the line; replayed",
   "all lines and points of a small grid, random ones up to 200, four scales and offsets"),
 "G01": ("TLA+ (TLC): Curve walks down the halves of integer control nets and turns arcs by rational directions; the exact points are compared with the single and vectorized queries",
   "random and degenerate nets, dyadic parameters (checked against Bernstein in the specification), arcs of rational directions; other parameters by the floating point definition for arcs only"),
 "G03": ("TLA+ (TLC): Refine and ArcBox enclose curves by halved nets and exact rational extrema; boxes from the code must lie between the bounds and equal exact ones",
   "random integer nets with rational extrema exactly, others within the bounds of 16 to 32 parts; arcs exactly"),
 "G04": ("TLA+ (TLC): Refine's polygon bounds on lengths, exact lengths of straight and Pythagorean hodograph curves; Uniform, quadratics of hardly any curvature; lengths from the code must lie within",
   "random integer nets, bounds of 16 to 32 parts, exact families; circles exactly, ellipses by inscribed polygons; sums, direction and similarity"),
 "G05": ("TLA+ (TLC): ArcEnds walks an arc on its ellipse and so finds the end point form that must lead back to it; replayed through all ways to give such an arc",
   "random arcs with rational directions, all flags, sizes too small, zero and negative radii"),
 "G02": ("TLA+ (TLC): Walk splits curves of exactly known length into pieces and walks along them; positions along the path from the code are compared with the exact ones",
   "random paths of lines, Pythagorean hodograph curves, circles and jumps, single and vectorized positions, edits and transforms between"),
 "G06": ("TLA+ (TLC): ArcPieces turns along the ellipse and prescribes end points, counts and bounds of the pieces; approximations from the code are compared",
   "random arcs and paths of arcs with rational directions; deviation within the stated power of the piece size, sampled at many parameters"),
 "G10": ("TLA+ (TLC): ArcWays walks an arc on its ellipse and derives which ways of giving it determine it; every such way is built by the code and compared with the walk",
   "random arcs of rational directions: general, along the axes, circles and corners, three scales"),
 "G11": ("TLA+ (TLC): ArcWays relates parameter, direction and point of the ellipse exactly (checked to agree by quadrant); the queries of the code are compared",
   "random arcs of rational directions, points of the arc and of their rays, three scales"),
 "G07": ("TLA+ (TLC): Transform applies exact integer matrices to the control points and ellipses of Geo; segments from the code compared",
   "random programs and matrices (rotations by rational directions, shears, reflections, scales), paths, subpaths and segments, in place and as copies, composed"),
 "G08": ("TLA+ (TLC): Hull states which points are extreme; hulls and orientations from the code are compared",
   "all sets of points on a small grid and random integer sets with duplicates and collinear runs"),
 "G09": ("TLA+ (TLC): PointOps, exact integer point algebra in all operand forms; results from the code are compared",
   "random integer points, all operand forms"),
 "T01": ("TLA+ (TLC): MatrixOps composes exact rational matrices step by step; every step of the code is compared",
   "random programs of up to 6 (9) operations with pre and post variants, centres, inverses, vectorized and complex forms"),
 "T02": ("TLA+ (TLC): TransformText gives each function list its exact matrix; texts written in many ways are read by the code and compared",
   "random lists of up to 4 (6) functions, all units, spellings and separators"),
 "T03": ("TLA+ (TLC): ViewboxMap computes the exact scale and translation for every alignment; compared with the code's transform text",
   "all 20 alignment forms over random rational boxes, missing values"),
 "T04": ("TLA+ (TLC): TransformLengths composes functions whose distances count parts of units; resolving the product is shown to be the product of the resolved functions; replayed with complete, partial and late contexts",
   "random lists of up to 4 functions over all pairs of unit families, contexts with any values missing, as one text, in parts, copied and multiplied before resolution"),
 "V01": ("TLA+ (TLC): ColorText gives every notation its exact channels; texts in many spellings are read by the code and compared",
   "all 4096 three digit colors, all 147 keywords, random colors in 20 notations, their equality and written forms"),
 "V02": ("TLA+ (TLC): recorded histories of writes and readings are judged step by step by ColorTrace, whose laws are model checked (ColorLaws)",
   "every value of every channel, random histories of 12 kinds of writes, all readings after each"),
 "V03": ("TLA+ (TLC): recorded mixtures, distances and distinct colors are judged by ColorTrace; laws of the definitions are model checked (ColorLaws)",
   "random pairs in all operand forms, dense and critical indexes of the distinct sequence (all 2^24 in the thorough tier)"),
 "V04": ("TLA+ (TLC): LengthOps enumerates operations over unit pairs with exact rational results; each is replayed into the code",
   "all 14x14 unit pairs with 14 operators over several amounts, random amounts, scalings and resolutions in contexts"),
 "V05": ("TLA+ (TLC): Angles carries exact fractions of a turn from unit to unit; every step of the code is compared",
   "random histories over six units within some hundred turns, in 1/360000 turns"),
 "D01": ("TLA+ (TLC): DOM, a machine of growing documents whose laws are model checked; histories of readings and builder calls are replayed and the whole tree compared after each step",
   "random histories of up to 14 (30) nodes over all element names, unknown and foreign names, texts rendered in many ways"),
 "D02": ("TLA+ (TLC): DOM histories replayed; saved texts and files are read back and compared with the specification's subtree, node equality with its twins",
   "random histories of up to 14 (30) nodes, special characters in names and values, all pairs of nodes compared"),
 "D03": ("TLA+ (TLC): DOM histories replayed; every navigation property of every node is compared after each step",
   "random histories of up to 14 (30) nodes, mostly alike siblings"),
 "D04": ("TLA+ (TLC): DOM histories replayed; effective values and paints of every node are compared after each step",
   "random histories of readings, additions and attribute changes, up to 14 (30) nodes"),
 "D05": ("TLA+ (TLC): DOM histories replayed; lookups of all ids are compared after each step",
   "random histories with few ids over up to 14 (30) nodes"),
 "D06": ("TLA+ (TLC): Images encodes bytes to base64 digits and decodes them again (model checked), decides which link counts and maps the pixels' corners exactly; every state is an image read and built in the code",
   "random byte strings up to 24 (27) bytes with links of 13 kinds in four places, random lists of three (six) transform functions"),
 "D07": ("TLA+ (TLC): Shapes computes what the shape draws from effective values, exactly, its laws (connected, closed, quarters turning one way, rects symmetric) are checked on every state, and each history of attribute changes is replayed: segments, points on them, texts and boxes are compared after each step",
   "random histories of 5 (12) steps of a shape of seven kinds in a group with attributes at both"),
 "D08": ("TLA+ (TLC): ElementView extends the machine of T03 to an element in an svg element whose attributes change step by step, the laws of the map are checked on every state, and each history is replayed: the transform is compared exactly after each step",
   "random histories of 6 (12) steps of an svg, image or pattern element in an svg element"),
}
