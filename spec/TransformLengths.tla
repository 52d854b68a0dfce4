--------------------------- MODULE TransformLengths ---------------------------
(* T04.  A transform text whose distances are lengths.  On each axis the distances are amounts of units
   of one family; the product counts their smallest parts, and what a part is in pixels is asked for in
   the end.  Where both axes count the same parts the functions may mix them.                        *)
EXTENDS Affine, Json
CONSTANTS Size
VARIABLES ax, ctx, fs, m
vars == <<ax, ctx, fs, m>>
Families == <<"screen", "paper", "paper", "em", "ex", "vw", "vh", "vmin", "vmax", "%", "%">>
UnitsOf(fam) == CASE fam = "screen" -> <<"", "px", "pt", "pc">> [] fam = "paper" -> <<"in", "cm", "mm">> [] OTHER -> <<fam>>
Parts(u) == CASE u \in {"", "px"} -> 3 [] u = "pt" -> 4 [] u = "pc" -> 48
              [] u = "mm" -> 10 [] u = "cm" -> 100 [] u = "in" -> 254 [] OTHER -> 1
\* what has to be known to resolve a family on an axis
Needs(fam, axis) == CASE fam = "screen" -> {} [] fam = "paper" -> {"ppi"} [] fam = "em" -> {"font_size"} [] fam = "ex" -> {"font_height"}
                      [] fam = "%" -> {ctx.by[axis]}
                      [] OTHER -> {"viewbox"}
\* pixels of a part
Pixels(fam, axis) == CASE fam = "screen" -> <<1, 3>> [] fam = "paper" -> <<ctx.ppi, 254>> [] fam = "em" -> <<ctx.font_size, 1>> [] fam = "ex" -> <<ctx.font_height, 1>>
                       [] fam = "%" -> <<ctx[ctx.by[axis]], 100>>
                       [] fam = "vw" -> <<ctx.viewbox[1], 100>> [] fam = "vh" -> <<ctx.viewbox[2], 100>>
                       [] fam = "vmin" -> <<MinI(ctx.viewbox[1], ctx.viewbox[2]), 100>>
                       [] fam = "vmax" -> <<IF ctx.viewbox[1] < ctx.viewbox[2] THEN ctx.viewbox[2] ELSE ctx.viewbox[1], 100>>
Alike == ax[1] = ax[2] /\ (ax[1] # "%" \/ ctx.by[1] = ctx.by[2])
Given == {"ppi", "font_size", "font_height", "viewbox", "width", "height", "relative_length"}
Others == Given \ {"width", "height", "relative_length"}
\* what percentages are relative to: a size per axis, or one length for an axis without: this is only told
\* together with the size of the other axis
Asked(by, given) == LET sizes == {by[1], by[2]} \ {"relative_length"} IN
   sizes \union (IF sizes \subseteq given THEN {by[1], by[2]} ELSE {})
RE(S) == RandomElement(S)
Init == ax = <<>> /\ ctx = <<>> /\ fs = <<>> /\ m = Id
Start == ax = <<>> /\ \E fx \in {Families[RE(1..11)]} : \E fy \in {IF RE(1..2) = 1 THEN fx ELSE Families[RE(1..11)]}, none \in {RE(1..3)} :
   \E by \in {<<RE({"width", "relative_length"}), RE({"height", "relative_length"})>>} :
   \E given \in {IF none = 1 THEN TLCEval({x \in Given : RE(1..3) = 1}) ELSE Given} :
   /\ ax' = <<fx, fy>>
   /\ ctx' = [ppi |-> RE({96, 72, 300}), font_size |-> RE({12, 16}), font_height |-> RE({8, 9}), viewbox |-> RE({<<100, 250>>, <<640, 480>>}),
              width |-> RE({200, 80}), height |-> RE({300, 50}), relative_length |-> RE({120, 7}), by |-> by,
              given |-> given \cap (Others \union Asked(by, given))]
   /\ UNCHANGED <<fs, m>>
\* an amount on an axis: <<numerator, denominator, unit>>
Amount(axis) == Pick({<<RE(-9..9), RE({1, 1, 2}), u>> : u \in {LET us == UnitsOf(ax[axis]) IN us[RE(1..Len(us))]}})
InParts(a) == <<a[1] * Parts(a[3]), a[2]>>
Op(op, args, at, ls) == [op |-> op, args |-> args, at |-> at, ls |-> ls]
RandFun(op) ==
  CASE op = "translate" -> Pick({IF RE(1..3) = 1 THEN Op(op, <<InParts(x)>>, <<>>, <<x>>) ELSE Op(op, <<InParts(x), InParts(y)>>, <<>>, <<x, y>>) : x \in {Amount(1)}, y \in {Amount(2)}})
    [] op = "translate_x" -> Pick({Op(op, <<InParts(x)>>, <<>>, <<x>>) : x \in {Amount(1)}})
    [] op = "translate_y" -> Pick({Op(op, <<InParts(y)>>, <<>>, <<y>>) : y \in {Amount(2)}})
    [] op = "rotate" -> Pick({IF w = 1 THEN Op(op, <<t>>, <<InParts(x), InParts(y)>>, <<x, y>>) ELSE Op(op, <<t>>, <<>>, <<>>) :
                              w \in {RE(1..2)}, t \in {RE(Turns)}, x \in {Amount(1)}, y \in {Amount(2)}})
    [] op = "cat" -> Pick({Op(op, <<Linear(a)>>, <<>>, <<>>) : a \in {RandMat(0)}})
    [] OTHER -> Pick({Op(op, TLCEval(RandArgs(op)), <<>>, <<>>) : x \in {0}})
Straight == <<"translate", "translate", "translate_x", "translate_y", "scale", "scale_x", "scale_y">>
Mixing == Straight \o <<"rotate", "rotate", "rotate", "skew_x", "skew_y", "cat">>
Next == ax # <<>> /\ Len(fs) < Size /\
  \E op \in {IF Alike THEN Mixing[RE(1..13)] ELSE Straight[RE(1..7)]} : \E o \in {RandFun(op)} :
    /\ Fits(Mul(Elem(o), m), 60000, 1000)
    /\ fs' = Append(fs, o) /\ m' = Mul(Elem(o), m) /\ UNCHANGED <<ax, ctx>>
Spec == Init /\ [][Start \/ Next]_vars
\* Resolving the product is the product of the resolved functions, whatever the parts are worth.
Resolved(n, x, y) == Lowest(<<n[1], n[2], n[3], n[4], x * n[5], y * n[6], n[7]>>)
RECURSIVE Product(_, _, _)
Product(s, x, y) == IF s = <<>> THEN Id ELSE Mul(Product(Tail(s), x, y), Resolved(Elem(s[1]), x, y))
InvResolve == ax # <<>> => LET y == IF Alike THEN 2 ELSE 3 IN Product(fs, 2, y) = Resolved(m, 2, y)
Emit == (Len(fs) = Size /\ Size > 0) => PrintT("@@" \o ToJson([fs |-> fs, m |-> m, ctx |-> ctx, ax |-> ax,
          px |-> <<Pixels(ax[1], 1), Pixels(ax[2], 2)>>,
          known |-> <<Needs(ax[1], 1) \subseteq ctx.given, Needs(ax[2], 2) \subseteq ctx.given>>]))
=============================================================================
