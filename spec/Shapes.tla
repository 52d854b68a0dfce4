-------------------------------- MODULE Shapes ---------------------------------
(* D07.  A shape element under a group: both have attributes, which change step by step.  What the shape
   draws follows from its effective values: moves, lines, closepaths and quarters of ellipses, the
   latter known by their ends and centre, all under the effective transform.                       *)
EXTENDS Affine, Json, FiniteSets
CONSTANTS Steps
VARIABLES kind, own, up, step
vars == <<kind, own, up, step>>
Kinds == <<"line", "polyline", "polygon", "rect", "rect", "rect", "circle", "ellipse", "path">>
Needs(k) == CASE k = "line" -> {"x1", "y1", "x2", "y2"} [] k \in {"polyline", "polygon"} -> {"points"} [] k = "path" -> {"d"}
              [] k = "rect" -> {"x", "y", "width", "height", "rx", "ry"} [] k = "circle" -> {"cx", "cy", "r"} [] OTHER -> {"cx", "cy", "rx", "ry"}
\* those that are never missing
Must(k) == CASE k = "rect" -> {"width", "height"} [] k = "circle" -> {"r"} [] k = "ellipse" -> {"rx", "ry"} [] OTHER -> {}
RE(S) == RandomElement(S)
Number(nm, k) == CASE nm \in {"width", "height"} -> <<RE({0, RE(1..40), RE(1..40), RE(1..40)}), RE({1, 2})>>
                   [] nm \in {"r", "rx", "ry"} -> <<IF k = "rect" THEN RE({0, RE(1..9), RE(1..9), RE(10..40)}) ELSE RE(1..30), RE({1, 2})>>
                   [] OTHER -> Halves(20)
\* sometimes in a grid so small that points repeat
Coordinates(n) == LET g == RE({20, 20, 1}) IN TLCEval([i \in 1..n |-> <<Halves(g), Halves(g)>>])
Written(o) == [o EXCEPT !.at = IF o.op \notin {"rotate", "skew", "skew_x", "skew_y"} THEN <<>> ELSE IF Len(@) = 1 THEN <<@[1], <<2, 1>>>> ELSE @]
\* no map that flattens
Map1(x) == Pick({IF o.op = "cat" /\ Det(o.args[1]) = 0 THEN [o EXCEPT !.args = <<Id>>] ELSE IF o.op = "skew" /\ Det(Plain(o)) = 0 THEN [o EXCEPT !.op = "skew_x", !.args = <<@[1]>>] ELSE o :
                  o \in {TLCEval(Written(TLCEval(RandOp(RE(OpNames)))))}})
Value(nm, k) == CASE nm = "transform" -> TLCEval([i \in 1..RE(1..2) |-> Map1(i)]) [] nm \in {"points", "d"} -> Coordinates(RE({0, 1, 2, 3, 4, 5})) [] OTHER -> Number(nm, k)
Of(e, nm) == IF nm \in DOMAIN e THEN e[nm] ELSE <<>>
RECURSIVE Fill(_, _, _)
Fill(e, names, k) == IF names = {} THEN e ELSE LET nm == CHOOSE n \in names : TRUE IN Fill(TLCEval((nm :> Value(nm, k)) @@ e), names \ {nm}, k)
Empty == [x \in {} |-> <<>>]
\* (the simulator computes initial states once, so that the kind is chosen by the first step)
Init == kind = "" /\ own = Empty /\ up = Empty /\ step = 0
Some(S, m) == {x \in S : RE(1..m) = 1}
Start == step = 0 /\ \E k \in {Kinds[RE(1..Len(Kinds))]} : \E s \in {TLCEval(Some(Needs(k), 5))}, u \in {TLCEval(Some(Needs(k) \union {"transform"}, 4))}, t \in {RE({{}, {}, {"transform"}})} :
           \E o \in {Fill(Empty, ((Needs(k) \ s) \union Must(k)) \union t, k)}, p \in {Fill(Empty, u, k)} : own' = o /\ up' = p /\ kind' = k
Change == step > 0 /\ UNCHANGED kind /\ \E nm \in {RE(Needs(kind) \union {"transform"})}, w \in {RE({"own", "own", "up", "drop"})} : \E v \in {Value(nm, kind)} :
            CASE w = "own" -> own' = (nm :> v) @@ own /\ UNCHANGED up
              [] w = "up" -> up' = (nm :> v) @@ up /\ UNCHANGED own
              [] OTHER -> IF nm \in Must(kind) /\ nm \notin DOMAIN up THEN UNCHANGED <<own, up>>
                          ELSE own' = [x \in DOMAIN own \ {nm} |-> own[x]] /\ UNCHANGED up
Next == step < Steps /\ step' = step + 1 /\ (Start \/ Change)
Spec == Init /\ [][Next]_vars
\* ---- what is drawn
Has(nm) == nm \in DOMAIN own \/ nm \in DOMAIN up
Eff(nm) == IF nm \in DOMAIN own THEN own[nm] ELSE IF nm \in DOMAIN up THEN up[nm] ELSE <<0, 1>>
\* all amounts are halves: they are counted in quarters here
Q(nm) == (Eff(nm)[1] * 4) \div Eff(nm)[2]
Pt(x, y) == <<x, y, 4>>
PtOf(c) == Pt((c[1][1] * 4) \div c[1][2], (c[2][1] * 4) \div c[2][2])
M(p) == [k |-> "move", s |-> <<>>, e |-> p, c |-> <<>>]
L(p, q) == [k |-> "line", s |-> p, e |-> q, c |-> <<>>]
Z(p, q) == [k |-> "close", s |-> p, e |-> q, c |-> <<>>]
A(p, q, c) == [k |-> "arc", s |-> p, e |-> q, c |-> c]
Poly(ps, closed) == IF ps = <<>> THEN <<>>
  ELSE <<M(PtOf(ps[1]))>> \o [i \in 1..(Len(ps) - 1) |-> L(PtOf(ps[i]), PtOf(ps[i + 1]))] \o (IF closed THEN <<Z(PtOf(ps[Len(ps)]), PtOf(ps[1]))>> ELSE <<>>)
Min2(a, b) == IF a < b THEN a ELSE b
RX == LET r == IF Has("rx") THEN Q("rx") ELSE IF Has("ry") THEN Q("ry") ELSE 0 IN Min2(r, Q("width") \div 2)
RY == LET r == IF Has("ry") THEN Q("ry") ELSE IF Has("rx") THEN Q("rx") ELSE 0 IN Min2(r, Q("height") \div 2)
Rect == LET x == Q("x")  y == Q("y")  w == Q("width")  h == Q("height")  a == RX  b == RY IN
  IF w = 0 \/ h = 0 THEN <<>>
  ELSE IF a = 0 \/ b = 0 THEN <<M(Pt(x, y)), L(Pt(x, y), Pt(x + w, y)), L(Pt(x + w, y), Pt(x + w, y + h)), L(Pt(x + w, y + h), Pt(x, y + h)), Z(Pt(x, y + h), Pt(x, y))>>
  ELSE <<M(Pt(x + a, y)), L(Pt(x + a, y), Pt((x + w) - a, y)), A(Pt((x + w) - a, y), Pt(x + w, y + b), Pt((x + w) - a, y + b)),
         L(Pt(x + w, y + b), Pt(x + w, (y + h) - b)), A(Pt(x + w, (y + h) - b), Pt((x + w) - a, y + h), Pt((x + w) - a, (y + h) - b)),
         L(Pt((x + w) - a, y + h), Pt(x + a, y + h)), A(Pt(x + a, y + h), Pt(x, (y + h) - b), Pt(x + a, (y + h) - b)),
         L(Pt(x, (y + h) - b), Pt(x, y + b)), A(Pt(x, y + b), Pt(x + a, y), Pt(x + a, y + b)), Z(Pt(x + a, y), Pt(x + a, y))>>
Round(a, b) == LET x == Q("cx")  y == Q("cy")  c == Pt(x, y)
                   p == <<Pt(x + a, y), Pt(x, y + b), Pt(x - a, y), Pt(x, y - b), Pt(x + a, y)>> IN
  <<M(p[1])>> \o [i \in 1..4 |-> A(p[i], p[i + 1], c)] \o <<Z(p[5], p[1])>>
Points(nm) == IF Has(nm) THEN Eff(nm) ELSE <<>>
Drawn == CASE kind = "line" -> <<M(Pt(Q("x1"), Q("y1"))), L(Pt(Q("x1"), Q("y1")), Pt(Q("x2"), Q("y2")))>>
           [] kind \in {"polyline", "polygon"} -> Poly(Points("points"), kind = "polygon") [] kind = "path" -> Poly(Points("d"), Len(Points("d")) > 3)
           [] kind = "rect" -> Rect [] kind = "circle" -> Round(Q("r"), Q("r")) [] OTHER -> Round(Q("rx"), Q("ry"))
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN Id ELSE Mul(Product(Tail(s)), Elem(s[1]))
Total == IF Has("transform") THEN Product(Eff("transform")) ELSE Id
Move1(p, m) == IF p = <<>> THEN <<>> ELSE Image(p, m)
Moved == LET m == Total IN [i \in 1..Len(Drawn) |-> LET s == Drawn[i] IN [k |-> s.k, s |-> Move1(s.s, m), e |-> Move1(s.e, m), c |-> Move1(s.c, m)]]
\* ---- laws
InvConnected == step > 0 => (\A i \in 2..Len(Drawn) : Drawn[i].s = Drawn[i - 1].e)
InvClosed == step > 0 => (Len(Drawn) > 0 /\ Drawn[Len(Drawn)].k = "close" => Drawn[Len(Drawn)].e = Drawn[1].e)
\* quarters: the radii to the ends of an arc lie along the two axes and keep the inside on the right, with y downwards
InvQuarter == step > 0 => (\A i \in 1..Len(Drawn) : LET d == Drawn[i] IN d.k = "arc" =>
  LET u == <<d.s[1] - d.c[1], d.s[2] - d.c[2]>>
      v == <<d.e[1] - d.c[1], d.e[2] - d.c[2]>> IN
  (u[1] = 0 \/ u[2] = 0) /\ (v[1] = 0 \/ v[2] = 0) /\ (u[1] * v[2]) - (u[2] * v[1]) > 0)
\* a rect touches all of its sides, and a turn by half about its middle maps its outline to itself
InvRect == step > 0 /\ kind = "rect" /\ Drawn # <<>> =>
  LET x == Q("x")  y == Q("y")  w == Q("width")  h == Q("height")
      ends == {Drawn[i].e : i \in 1..Len(Drawn)} IN
  /\ \A p \in ends : p[1] \in x..(x + w) /\ p[2] \in y..(y + h) /\ Pt(((2 * x) + w) - p[1], ((2 * y) + h) - p[2]) \in ends
  /\ \E p, q \in ends : p[1] = x /\ q[1] = x + w /\ \E r, t \in ends : r[2] = y /\ t[2] = y + h
\* mapped outlines stay connected
InvMoved == step > 0 => (\A i \in 2..Len(Moved) : Moved[i].s = Moved[i - 1].e)
Emit == step > 0 => PrintT("@@" \o ToJson([step |-> step, kind |-> kind, own |-> own, up |-> up, segs |-> Drawn, moved |-> Moved]))
=============================================================================
