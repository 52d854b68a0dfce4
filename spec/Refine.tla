-------------------------------- MODULE Refine --------------------------------
(* G03, G04.  A Bezier curve is refined by halving all its parts.  At every level the ends of the
   parts are points of the curve and the control nets enclose it, so that boxes and lengths are
   caught between an inner and an outer bound which approach each other.  Where the extrema are
   rational they are computed exactly, as are the lengths of straight curves and of cubics with a
   Pythagorean hodograph.                                                                        *)
EXTENDS Geo, Json
CONSTANTS Levels      \* <<for lines, quadratics, cubics>>
QuickLevels == <<2, 5, 4>>
DeepLevels == <<2, 6, 4>>
VARIABLES base, info, nets, level, scale, box
vars == <<base, info, nets, level, scale, box>>

\* ---- exact extrema of one coordinate a (2 to 4 integers): set of <<value, denominator>> --------
Val(a, r, s) == LET d == Len(a) - 1
                    RECURSIVE S(_)
                    S(i) == IF i > d THEN 0 ELSE Choose(d, i) * Pow(r, i) * Pow(s - r, d - i) * a[i + 1] + S(i + 1)
                IN S(0)
Slope(a, r, s) == Val([i \in 1..(Len(a) - 1) |-> a[i + 1] - a[i]], r, s)
Disc(a) == a[2]*a[2] - (a[1] + a[2])*a[3] + a[3]*a[3] + (a[1] - a[2])*a[4]
Rational(a) == Len(a) < 4 \/ a[1] - 3*a[2] + 3*a[3] - a[4] = 0 \/ Disc(a) < 0 \/ Square(Disc(a))
Roots(a) ==   \* <<r, s>> with s > 0 for the parameters of slope zero, if rational
  LET Pos(r, s) == IF s < 0 THEN <<-r, -s>> ELSE <<r, s>>
      Lin1(r, s) == IF s = 0 THEN {} ELSE {Pos(r, s)} IN
  CASE Len(a) = 2 -> {}
    [] Len(a) = 3 -> Lin1(a[1] - a[2], a[1] - 2*a[2] + a[3])
    [] OTHER -> LET q == a[1] - 3*a[2] + 3*a[3] - a[4]
                    m == a[1] - 2*a[2] + a[3]
                    d == Disc(a) IN
                IF q = 0 THEN Lin1(a[1] - a[2], 2 * m)
                ELSE IF d < 0 THEN {} ELSE {Pos(m + Root(d), q), Pos(m - Root(d), q)}
Inside(a) == {x \in Roots(a) : x[1] > 0 /\ x[1] < x[2]}
\* as <<value, denominator>>, the ends included; ordered by parameter
Extrema(a) == LET S == {<<0, 1>>, <<1, 1>>} \cup Inside(a)
                  ts == SetToSortSeq(S, LAMBDA x, y : x[1] * y[2] < y[1] * x[2])
              IN [i \in 1..Len(ts) |-> <<Val(a, ts[i][1], ts[i][2]), Pow(ts[i][2], Len(a) - 1), ts[i]>>]
Coord(net, i) == [k \in 1..Len(net) |-> net[k][i]]

\* ---- bounds -----------------------------------------------------------------------------------
Ends(ns) == <<ns[1][1]>> \o [i \in 1..Len(ns) |-> ns[i][Len(ns[i])]]
Span(ps, i) == LET S == {ps[k][i] : k \in 1..Len(ps)} IN <<CHOOSE x \in S : \A y \in S : x <= y, CHOOSE x \in S : \A y \in S : x >= y>>
Box(ps) == <<Span(ps, 1)[1], Span(ps, 2)[1], Span(ps, 1)[2], Span(ps, 2)[2]>>
Inner(ns) == Box(Ends(ns))
Outer(ns) == Box(FlattenSeq(ns))
Within(a, b) == a[1] >= b[1] /\ a[2] >= b[2] /\ a[3] <= b[3] /\ a[4] <= b[4]
RECURSIVE SumN(_)
SumN(s) == IF s = <<>> THEN 0 ELSE s[1] + SumN(Tail(s))
Leg(p, q) == Norm2(Sub(q, p))
Lower(ns) == SumN([i \in 1..Len(ns) |-> Root(Leg(ns[i][1], ns[i][Len(ns[i])]))])
Upper(ns) == SumN([i \in 1..Len(ns) |-> SumN([k \in 1..(Len(ns[i]) - 1) |-> RootUp(Leg(ns[i][k], ns[i][k + 1]))])])

\* ---- curves --------------------------------------------------------------------------------------
Straights == << <<3, 4, 5>>, <<0, 1, 1>>, <<1, 0, 1>>, <<-4, 3, 5>>, <<-1, 0, 1>>, <<5, 12, 13>> >>
Tuple4(x) == TLCEval([k \in 1..4 |-> RandomElement(-12..12)])
Nice(x) == Pick({IF c = <<>> THEN <<0, 3, 3, 0>> ELSE c[1] : c \in {SelectSeq(t, Rational) : t \in {TLCEval([i \in 1..24 |-> Tuple4(i)])}}})
\* turning back shortly
Brief(x) == Pick({IF c = <<>> THEN <<8, -2, 9, -3>> ELSE c[1] :
             c \in {SelectSeq(t, LAMBDA a : Disc(a) \in {1, 4} /\ Inside(a) # {}) : t \in {TLCEval([i \in 1..60 |-> TLCEval([k \in 1..4 |-> RandomElement(-9..9)])])}}})
OnLine(a, d, p) ==     \* on one line, to and fro
  [net |-> [k \in 1..Len(a) |-> Add(p, <<a[k] * d[1], a[k] * d[2]>>)],
   len |-> IF ~Rational(a) THEN <<>> ELSE <<"line", [i \in 1..Len(Extrema(a)) |-> <<Extrema(a)[i][1], Extrema(a)[i][2]>>], d[3]>>]
Sq(q) == <<q[1]*q[1] - q[2]*q[2], 2*q[1]*q[2]>>
Hodo(z, y, p) ==       \* Pythagorean hodograph: its square root runs from z to y
  [net |-> <<p, Add(p, Sq(z)), Add(Add(p, Sq(z)), <<z[1]*y[1] - z[2]*y[2], z[1]*y[2] + z[2]*y[1]>>),
             Add(Add(Add(p, Sq(z)), <<z[1]*y[1] - z[2]*y[2], z[1]*y[2] + z[2]*y[1]>>), Sq(y))>>,
   len |-> <<"ph", << <<Norm2(z) + Dot(z, y) + Norm2(y), 1>> >>, 1>>]
Zipped(a, b) == [net |-> [k \in 1..4 |-> <<a[k], b[k]>>], len |-> <<>>]
RandCurve(w, n) ==
  CASE w <= 3 -> Pick({Zipped(a, b) : a \in {Nice(0)}, b \in {Nice(1)}})
    [] w <= 5 -> Pick({[net |-> x, len |-> <<>>] : x \in {TLCEval([k \in 1..3 |-> RandPt(12)])}})
    [] w = 6 -> Pick({OnLine(a, d, p) : d \in {Straights[RandomElement(1..6)]}, p \in {RandPt(3)},
                      a \in {IF n = 4 /\ RandomElement(1..2) = 1 THEN Brief(0) ELSE TLCEval([k \in 1..n |-> RandomElement(IF n = 4 THEN -1..1 ELSE -2..2)])}})
    \* one coordinate turning close to an end
    [] w \in 8..10 -> Pick({[net |-> IF rev = 1 THEN Reverse(x) ELSE x, len |-> <<>>] : rev \in {RandomElement(1..2)},
                 x \in {TLCEval([k \in 1..m |-> LET q == CASE k = 1 -> 0 [] k = 2 -> near [] OTHER -> (IF m = 4 THEN far[k] \div 2 ELSE far[k]) IN
                                                IF axis = 1 THEN <<q, other[k]>> ELSE <<other[k], q>>]) :
                        m \in {RandomElement(3..4)}, near \in {RandomElement({1, -1, -1, 2, -3})}, axis \in {RandomElement(1..2)},
                        far \in {TLCEval([k \in 1..4 |-> RandomElement(CASE RandomElement(1..4) = 1 -> 40..48 [] RandomElement(1..2) = 1 -> 150..200 [] OTHER -> -200..200)])},
                        other \in {TLCEval([k \in 1..4 |-> RandomElement(-12..12)])}}})
    [] w = 7 -> Pick({Hodo(z, y, p) : z \in {RandPt(2)}, y \in {RandPt(2)}, p \in {RandPt(4)}})
    [] OTHER -> Pick({[net |-> x, len |-> <<>>] : x \in {RandNet(n, 12)}})
\* The same curve as one of the next degree, over the denominator degree + 1.
Elevated(net) == LET n == Len(net) IN
  [i \in 1..(n + 1) |-> Add(IF i = 1 THEN <<0, 0>> ELSE Times(i - 1, net[i - 1]), IF i > n THEN <<0, 0>> ELSE Times(n - i + 1, net[i]))]
Wide(net) == \E k \in 1..Len(net) : Abs(net[k][1]) > 24 \/ Abs(net[k][2]) > 24
Final == IF Wide(base) THEN 3 ELSE Levels[Len(base) - 1]
Init == base = <<>> /\ info = <<>> /\ nets = <<>> /\ level = -1 /\ scale = 1 /\ box = <<>>
Start == level = -1 /\ \E w \in {RandomElement(1..12)} : \E n \in {RandomElement(2..4)} : \E c \in {RandCurve(w, n)} :
           base' = c.net /\ info' = c.len /\ nets' = <<c.net>> /\ level' = 0 /\ scale' = 1 /\ box' = <<Inner(<<c.net>>), Outer(<<c.net>>)>>
Refine == level >= 0 /\ level < Final /\
          LET ns == FlattenSeq([i \in 1..Len(nets) |-> <<Left(nets[i]), Right(nets[i])>>]) IN
          /\ nets' = ns /\ level' = level + 1 /\ scale' = scale * Pow(2, Len(base) - 1)
          /\ box' = <<Inner(ns), Outer(ns)>> /\ UNCHANGED <<base, info>>
Spec == Init /\ [][Start \/ Refine]_vars
\* Refinement only tightens, and catches the exact extrema.
Grown(b, f) == [i \in 1..4 |-> f * b[i]]
Nested == level >= 0 /\ level' = level + 1 =>
            LET f == Pow(2, Len(base) - 1) IN
            Within(Grown(box[1], f), box'[1]) /\ Within(box'[1], box'[2]) /\ Within(box'[2], Grown(box[2], f))
PropNested == [][Nested]_vars
SideOk(v, lo, hi) == \* v = <<value, den>>
  lo * v[2] <= v[1] * scale /\ v[1] * scale <= hi * v[2]
InvExtrema == (level = 1 /\ (Len(base) < 4 \/ ~Wide(base)) /\ \A i \in 1..2 : Rational(Coord(base, i))) =>
  \A i \in 1..2 : LET ex == Extrema(Coord(base, i)) IN
    \A k \in 1..Len(ex) : /\ (ex[k][3][1] \in {0, ex[k][3][2]} \/ Slope(Coord(base, i), ex[k][3][1], ex[k][3][2]) = 0)
                          /\ SideOk(ex[k], box[2][i], box[2][i + 2])
InvBounds == (level >= 0 /\ level = Final) => Lower(nets) <= Upper(nets)
Emit == (level >= 0 /\ level = Final) =>
  PrintT("@@" \o ToJson([net |-> base, scale |-> scale, inner |-> box[1], outer |-> box[2],
    lower |-> Lower(nets), upper |-> Upper(nets), parts |-> Len(nets), exact |-> info,
    halves |-> <<Left(base), Right(base)>>, higher |-> Elevated(base),
    ext |-> IF (Len(base) < 4 \/ ~Wide(base)) /\ Rational(Coord(base, 1)) /\ Rational(Coord(base, 2))
            THEN [i \in 1..2 |-> LET e == Extrema(Coord(base, i)) IN [k \in 1..Len(e) |-> <<e[k][1], e[k][2]>>]] ELSE <<>>]))
=============================================================================
