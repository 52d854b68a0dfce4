------------------------------ MODULE ViewboxMap ------------------------------
(* T03.  The map from a viewbox to an element rectangle, for every preserveAspectRatio.            *)
EXTENDS Affine, Json
VARIABLES el, vb, par, m
vars == <<el, vb, par, m>>
Aligns == {"none"} \cup {x \o y : x \in {"xMin", "xMid", "xMax"}, y \in {"YMin", "YMid", "YMax"}}
\* "-" stands for what is not given
Pars == {[align |-> a, how |-> h] : a \in Aligns, h \in {"-", "meet", "slice"}} \cup {[align |-> "-", how |-> "-"]}
Half == <<1, 2>>
Align(a) == IF a = "-" THEN "xMidYMid" ELSE a
Slice(c) == c.how = "slice"
XPart(a) == CASE a \in {x \o y : x \in {"xMin"}, y \in {"YMin", "YMid", "YMax"}} -> <<0, 1>>
              [] a \in {x \o y : x \in {"xMid"}, y \in {"YMin", "YMid", "YMax"}} -> Half [] OTHER -> <<1, 1>>
YPart(a) == CASE a \in {x \o "YMin" : x \in {"xMin", "xMid", "xMax"}} -> <<0, 1>>
              [] a \in {x \o "YMid" : x \in {"xMin", "xMid", "xMax"}} -> Half [] OTHER -> <<1, 1>>
Less(a, b) == a[1] * b[2] < b[1] * a[2]
\* rationals
RAdd(a, b) == <<(a[1]*b[2]) + (b[1]*a[2]), a[2]*b[2]>>
RMul(a, b) == <<a[1]*b[1], a[2]*b[2]>>
Whole(n) == <<n, 1>>
RSub(a, b) == RAdd(a, Neg(b))
Low(r) == LET g == Gcd(r[1], r[2]) IN <<IF r[1] < 0 THEN -((-r[1]) \div g) ELSE r[1] \div g, r[2] \div g>>
Map(e, v, c) ==
  LET rx == <<e[3], v[3]>>
      ry == <<e[4], v[4]>>
      a == Align(c.align)
      s == IF Slice(c) THEN (IF Less(rx, ry) THEN ry ELSE rx) ELSE (IF Less(ry, rx) THEN ry ELSE rx)
      sx == IF a = "none" THEN rx ELSE s
      sy == IF a = "none" THEN ry ELSE s
      \* the room left over on an axis is shared out by the alignment
      tx == Low(RAdd(RSub(Whole(e[1]), RMul(Whole(v[1]), sx)), IF a = "none" THEN Whole(0) ELSE RMul(XPart(a), RSub(Whole(e[3]), RMul(Whole(v[3]), sx)))))
      ty == Low(RAdd(RSub(Whole(e[2]), RMul(Whole(v[2]), sy)), IF a = "none" THEN Whole(0) ELSE RMul(YPart(a), RSub(Whole(e[4]), RMul(Whole(v[4]), sy)))))
  IN Mul(Scale2(Low(sx), Low(sy)), Move2(tx, ty))
Sizes == {1, 2, 3, 4, 5, 8, 10, 30, 64, 100}
Init == el = <<>> /\ vb = <<>> /\ par = <<>> /\ m = <<>>
Next == el = <<>> /\ \E c \in {RandomElement({RandomElement(Pars), RandomElement({x \in Pars : x.align = "none"})})} : \E e \in {<<RandomElement(-9..9), RandomElement(-9..9), RandomElement(Sizes), RandomElement(Sizes)>>} :
                     \E v \in {<<RandomElement(-9..9), RandomElement(-9..9), RandomElement(Sizes), RandomElement(Sizes)>>} :
                     \E same \in {RandomElement(1..12)} :
          LET v2 == CASE same = 1 -> e [] same = 2 -> [v EXCEPT ![3] = e[3], ![4] = e[4]]      \* scales of one, offsets of none
                      [] same = 3 -> [v EXCEPT ![3] = e[3]] [] same = 4 -> [v EXCEPT ![4] = e[4]]
                      [] same = 5 -> [e EXCEPT ![3] = v[3]] [] same = 6 -> [e EXCEPT ![4] = v[4]] [] same = 7 -> [v EXCEPT ![1] = e[1], ![2] = e[2]]
                      [] same = 8 -> <<0, 0, v[3], v[4]>> [] OTHER -> v
              e2 == IF same = 8 THEN <<0, 0, v[3] * RandomElement(1..2), v[4] * RandomElement(1..2)>> ELSE e IN
          el' = e2 /\ vb' = v2 /\ par' = c /\ m' = Map(el', v2, c)
Spec == Init /\ [][Next]_vars
\* ---- what SVG asks for: the image of the viewbox against the rectangle
Corner(i) == Image(<<vb[1] + (IF i = 2 THEN vb[3] ELSE 0), vb[2] + (IF i = 2 THEN vb[4] ELSE 0), 1>>, m)
Lo(k) == <<Corner(1)[k], Corner(1)[3]>>
Hi(k) == <<Corner(2)[k], Corner(2)[3]>>
Le(a, b) == ~Less(b, a)
Eq(a, b) == ~Less(b, a) /\ ~Less(a, b)
E1(k) == Whole(el[k])
E2(k) == Whole(el[k] + el[k + 2])
InvMap == el # <<>> =>
  LET a == Align(par.align)
      fits(k) == Eq(Lo(k), E1(k)) /\ Eq(Hi(k), E2(k))
      inside(k) == Le(E1(k), Lo(k)) /\ Le(Hi(k), E2(k))
      covers(k) == Le(Lo(k), E1(k)) /\ Le(E2(k), Hi(k))
      aligned(k, part) == CASE part = <<0, 1>> -> Eq(Lo(k), E1(k)) [] part = <<1, 1>> -> Eq(Hi(k), E2(k))
                            [] OTHER -> Eq(RAdd(Lo(k), Hi(k)), RAdd(E1(k), E2(k))) IN
  /\ m[2] = 0 /\ m[3] = 0 /\ m[1] > 0 /\ m[4] > 0
  /\ a = "none" => fits(1) /\ fits(2)
  /\ a # "none" => /\ m[1] = m[4] /\ (fits(1) \/ fits(2))
                   /\ (IF Slice(par) THEN covers(1) /\ covers(2) ELSE inside(1) /\ inside(2))
                   /\ aligned(1, XPart(a)) /\ aligned(2, YPart(a))
Emit == el # <<>> => PrintT("@@" \o ToJson([el |-> el, vb |-> vb, par |-> par, m |-> m]))
=============================================================================
