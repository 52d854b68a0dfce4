-------------------------------- MODULE Affine --------------------------------
(* Affine maps with rational coefficients <<a, b, c, d, e, f, q>> (over the common denominator q > 0),
   and the elementary maps that matrices and transform texts are made of.
   A rational is <<numerator, denominator>>; an angle is known by its cosine and sine <<x, y, r>> or
   by its tangent.                                                                                  *)
EXTENDS Geo
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))
RECURSIVE GcdAll(_)
GcdAll(s) == IF s = <<>> THEN 0 ELSE Gcd(s[1], GcdAll(Tail(s)))
Lowest(m) == LET g == GcdAll(m)
                 s == IF m[7] < 0 THEN -1 ELSE 1 IN
             [i \in 1..7 |-> LET x == s * m[i] IN IF x < 0 THEN -((-x) \div g) ELSE x \div g]
Id == <<1, 0, 0, 1, 0, 0, 1>>
\* m first, then n
Mul(m, n) == Lowest(<<(m[1]*n[1]) + (m[2]*n[3]), (m[1]*n[2]) + (m[2]*n[4]),
                      (m[3]*n[1]) + (m[4]*n[3]), (m[3]*n[2]) + (m[4]*n[4]),
                      (m[5]*n[1]) + (m[6]*n[3]) + (n[5]*m[7]), (m[5]*n[2]) + (m[6]*n[4]) + (n[6]*m[7]), m[7]*n[7]>>)
Det(m) == (m[1]*m[4]) - (m[2]*m[3])       \* times q^2
Inv(m) == LET q == m[7] IN
  Lowest(<<q*m[4], -(q*m[2]), -(q*m[3]), q*m[1], (m[3]*m[6]) - (m[4]*m[5]), (m[2]*m[5]) - (m[1]*m[6]), Det(m)>>)
Linear(m) == Lowest([m EXCEPT ![5] = 0, ![6] = 0])
\* The image of <<x, y, r>>, as one of these.
Image(p, m) == LET g == GcdAll(<<(p[1]*m[1]) + (p[2]*m[3]) + (m[5]*p[3]), (p[1]*m[2]) + (p[2]*m[4]) + (m[6]*p[3]), p[3]*m[7]>>)
                   D(x) == IF x < 0 THEN -((-x) \div g) ELSE x \div g IN
  <<D((p[1]*m[1]) + (p[2]*m[3]) + (m[5]*p[3])), D((p[1]*m[2]) + (p[2]*m[4]) + (m[6]*p[3])), D(p[3]*m[7])>>
Fits(m, big, q) == m[7] <= q /\ \A i \in 1..6 : Abs(m[i]) <= big
\* ---- elementary maps
Move2(x, y) == Lowest(<<x[2]*y[2], 0, 0, x[2]*y[2], x[1]*y[2], y[1]*x[2], x[2]*y[2]>>)
Scale2(x, y) == Lowest(<<x[1]*y[2], 0, 0, y[1]*x[2], 0, 0, x[2]*y[2]>>)
Rotate(t) == Lowest(<<t[1], t[2], -t[2], t[1], 0, 0, t[3]>>)
Skew2(ta, tb) == Lowest(<<ta[2]*tb[2], tb[1]*ta[2], ta[1]*tb[2], ta[2]*tb[2], 0, 0, ta[2]*tb[2]>>)
Neg(r) == <<-r[1], r[2]>>
About(m, x, y) == Mul(Mul(Move2(Neg(x), Neg(y)), m), Move2(x, y))
One == <<1, 1>>
Zero == <<0, 1>>
\* An operation is [op, args, at]: at is <<>> or the centre, of one or two coordinates.
Plain(o) == LET a == o.args IN
  CASE o.op = "translate" -> Move2(a[1], IF Len(a) = 1 THEN Zero ELSE a[2])
    [] o.op = "translate_x" -> Move2(a[1], Zero)
    [] o.op = "translate_y" -> Move2(Zero, a[1])
    [] o.op = "scale" -> Scale2(a[1], IF Len(a) = 1 THEN a[1] ELSE a[2])
    [] o.op = "scale_x" -> Scale2(a[1], One)
    [] o.op = "scale_y" -> Scale2(One, a[1])
    [] o.op = "rotate" -> Rotate(a[1])
    [] o.op = "skew" -> Skew2(a[1], IF Len(a) = 1 THEN Zero ELSE a[2])
    [] o.op = "skew_x" -> Skew2(a[1], Zero)
    [] o.op = "skew_y" -> Skew2(Zero, a[1])
    [] o.op = "cat" -> a[1]
Elem(o) == IF o.at = <<>> THEN Plain(o) ELSE About(Plain(o), o.at[1], IF Len(o.at) = 1 THEN Zero ELSE o.at[2])

\* ---- random material
Halves(b) == <<RandomElement(-b..b), RandomElement({1, 1, 2})>>
Scales == {<<2, 1>>, <<-1, 1>>, <<1, 2>>, <<3, 1>>, <<-2, 1>>, <<3, 2>>, <<1, 1>>, <<-1, 2>>, <<1, 4>>, <<5, 1>>}
Tans == {<<1, 1>>, <<-1, 1>>, <<1, 2>>, <<2, 1>>, <<-3, 4>>, <<0, 1>>, <<-2, 1>>}
Turns == {Units[i] : i \in 1..8}
Mats == {<<2, 1, 1, 1, 3, -4, 1>>, <<0, 1, 1, 0, 0, 0, 1>>, <<1, 2, -1, 3, 0, 7, 1>>, <<-1, 0, 0, 1, 5, 0, 1>>, <<3, 1, 2, 4, -1, -1, 2>>,
         <<1, 0, 1, 1, 0, 0, 1>>, <<0, -2, 3, 0, 1, 2, 1>>, <<1, 0, 0, 1, 0, 0, 1>>, <<2, 0, 0, 2, -9, 4, 1>>, <<1, -1, 1, 1, 0, 0, 1>>}
\* shapes that look like others: symmetric, similar, mirrored, exchanged, any
RandMat(x) == Pick({Lowest(CASE k = 1 -> <<a, b, b, a, e, f, q>> [] k = 2 -> <<a, b, -b, a, e, f, q>> [] k = 3 -> <<a, b, b, -a, e, f, q>>
                             [] k = 4 -> <<0, b, c, 0, e, f, q>> [] k = 5 -> <<a, -b, -b, a, e, f, q>> [] OTHER -> <<a, b, c, d, e, f, q>>) :
   k \in {RandomElement(1..6)}, a \in {RandomElement(-3..3)}, b \in {RandomElement(-3..3)}, c \in {RandomElement(-3..3)}, d \in {RandomElement(-3..3)},
   e \in {RandomElement(-5..5)}, f \in {RandomElement(-5..5)}, q \in {RandomElement({1, 1, 2})}})
RandArgs(op) ==
  CASE op \in {"translate", "translate1"} -> IF RandomElement(1..4) = 1 THEN <<Halves(9)>> ELSE <<Halves(9), Halves(9)>>
    [] op \in {"translate_x", "translate_y"} -> <<Halves(9)>>
    [] op = "scale" -> IF RandomElement(1..3) = 1 THEN <<RandomElement(Scales)>> ELSE <<RandomElement(Scales), RandomElement(Scales)>>
    [] op \in {"scale_x", "scale_y"} -> <<RandomElement(Scales)>>
    [] op = "rotate" -> <<RandomElement(Turns)>>
    [] op = "skew" -> <<RandomElement(Tans), RandomElement(Tans)>>
    [] op \in {"skew_x", "skew_y"} -> <<RandomElement(Tans)>>
    [] OTHER -> IF RandomElement(1..3) = 1 THEN <<RandomElement(Mats)>> ELSE <<RandMat(0)>>
RandAt(op) == IF op \in {"scale", "scale_x", "scale_y", "rotate", "skew", "skew_x", "skew_y"}
              THEN CASE RandomElement(1..5) \in {1, 2} -> <<>> [] RandomElement(1..4) = 1 -> <<Halves(5)>> [] OTHER -> <<Halves(5), Halves(5)>>
              ELSE <<>>
OpNames == {"translate", "translate_x", "translate_y", "scale", "scale_x", "scale_y", "rotate", "skew", "skew_x", "skew_y", "cat"}
RandOp(x) == Pick({[op |-> op, args |-> a, at |-> t] : op \in {x}, a \in {TLCEval(RandArgs(x))}, t \in {TLCEval(RandAt(x))}})
=============================================================================
