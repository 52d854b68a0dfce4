"""Details for DESIGN.md that are not in the manifest notes."""
DETAIL = {
 "P01": "PathData.tla is the interpreter (registers: current point, subpath start, last control, kind of the previous command). PathProgram chooses commands; TLC enumerates all pairs of commands after a moveto with several coordinate variants. The same program is rendered as one text, as pieces added with +=, and as calls of the drawing methods with and without `relative`.",
 "P02": "PathText.tla is a grammar on characters and decides token by token. Texts come from three styles of spelling and from all strings over a small alphabet between two numbers; the number read by the code is compared as an exact decimal.",
 "P03": "The trace module computes, for each malformed text, the set of allowed outcomes (ValueError, or the complete groups before the error). Hangs are bounded by a time limit.",
 "P04": "The written text is parsed by PathText and interpreted by PathData inside TLC, and must give the segments that were written. Modes: absolute, relative, recorded x smooth allowed, forced, forbidden; also per subpath, after edits that invalidate shorthands.",
 "P05": "PathEdit.tla keeps a list of segments with known or missing positions and its connection rules; every step's list is compared. Closepaths, missing movetos and missing ends are in the initial paths.",
 "P06": "Same machine; indexes and slices with all signs and steps, texts, paths, segments and lists as new items; the error raised must be the list's.",
 "P07": "Two machines of registers: PathRegs for paths, subpaths and segments, ValueRegs for matrices, points, colors, lengths and angles. After each operation *all* registers are compared, so a shared part shows as soon as either side is changed.",
 "P08": "Edits and measurements alternate; each measured value must be that of a fresh path of the specification's segments.",
 "P09": "The window machine: edits through one view; the view's range and the whole path are compared after each step.",
 "P10": "Reversal of runs is specified on the list and compared with segments and outlines.",
 "P11": "The combinations are enumerated completely, the segments drawn; reading the command back is an invariant. The text, str and repr of the code are split into words and compared.",
 "P12": "Changes include swapped coordinates, missing points, centers and radius points moved alone, sweeps by whole turns, order and number.",
 "P13": "Invariants: continuing from the reference points needs no repair, a direct close draws nothing and is done once.",
 "G01": "Nets with degenerate shapes, three scales and offsets; arcs of rational directions; vectorized queries in random order, as lists, tuples and arrays.",
 "G03": "Refine halves the nets until both bounds of a side meet or the level is reached; ArcBox has rational extrema.",
 "G06": "The counts, joints and the order of replacing arcs in a path are specified; the error bounds are compared on a grid of parameters.",
 "G07": "Includes sequences of transforms, text operands, subpaths and mirror images.",
 "G08": "Exhaustive on all subsets and orders of small grids, random with duplicates and collinear runs; the input is also given as an iterator, against hulls that never end.",
 "T01": "Exact rational matrices; each in-place operation is one action. Families: symmetric, similar, mirrored, exchanged and general matrices.",
 "V02": "ColorTrace judges histories recorded from the code: after each write all readings.",
 "V03": "The thorough tier reads all 2^24 distinct colors.",
 "D01": "One machine of documents for D01 to D05; histories interleave reading of texts and building, and each check compares its own view of the tree after each step.",
}
