------------------------------ MODULE LengthOps ------------------------------
(* V04.  Lengths are amounts of units.  Units belong to families whose members are fixed multiples
   of each other; what an operation or a resolution gives follows from those multiples.  Amounts are
   written in hundredths, results are rationals; a result is "near" where the implementation's
   rounded factors between the families' members show.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Amounts, Random
VARIABLES note
Units == <<"", "px", "pt", "pc", "mm", "cm", "in", "em", "ex", "%", "vw", "vh", "vmin", "vmax">>
U == {Units[i] : i \in 1..Len(Units)}
Family(u) == CASE u \in {"", "px", "pt", "pc"} -> "screen" [] u \in {"mm", "cm", "in"} -> "paper" [] OTHER -> u
\* how many of the family's smallest parts (1/3 px, 1/10 mm) one unit is
Parts(u) == CASE u \in {"", "px"} -> 3 [] u = "pt" -> 4 [] u = "pc" -> 48
              [] u = "mm" -> 10 [] u = "cm" -> 100 [] u = "in" -> 254 [] OTHER -> 1
Related(u, v) == Family(u) = Family(v)
\* whether the implementation's factor from one to the other is exact
Decimal(u, v) == u = v \/ {u, v} \subseteq {"", "px", "pc"} \/ {u, v} = {"pt", "pc"} \/ {u, v} = {"mm", "cm"}
None == [is |-> "none"]
Len0(n, d, u, near) == [is |-> "length", n |-> n, d |-> d, unit |-> u, near |-> near]
Num(n, d, near) == [is |-> "number", n |-> n, d |-> d, k |-> 1, near |-> near]
NumK(n, k, d, near) == [is |-> "number", n |-> n, d |-> d, k |-> k, near |-> near]    \* n*k/d
Error == [is |-> "ValueError"]
Same == [is |-> "same"]         \* stays what it is
Truth(t) == [is |-> "truth", t |-> t]
Open == [is |-> "any"]
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
AbsL(x) == IF x < 0 THEN -x ELSE x
\* ---- addition: a of u plus b of v
Plus(a, u, b, v) ==
  IF u = v THEN Len0(a + b, 100, u, FALSE)
  ELSE IF a = 0 THEN Len0(b, 100, v, FALSE)
  ELSE IF b = 0 THEN Len0(a, 100, u, FALSE)
  ELSE IF Related(u, v) THEN Len0((a * Parts(u)) + (b * Parts(v)), 100 * Parts(u), u, ~Decimal(u, v))
  ELSE Error
Over(a, u, b, v) ==
  IF b = 0 THEN Open
  ELSE IF a = 0 THEN Num(0, 1, FALSE)
  ELSE IF Related(u, v) THEN Num(a * Parts(u) * Sgn(b), AbsL(b) * Parts(v), ~Decimal(u, v))
  ELSE Error
\* the sign of the difference, 2 if it cannot be told, 3 if there is none
Order(a, u, b, v) ==
  IF u = v THEN Sgn(a - b)
  ELSE IF a = 0 \/ b = 0 THEN Sgn(a - b)
  ELSE IF ~Related(u, v) THEN 3
  ELSE LET x == a * Parts(u)
           y == b * Parts(v) IN
       IF AbsL(x - y) > ((AbsL(x) + AbsL(y)) \div 5000) + 1 THEN Sgn(x - y)
       ELSE IF Decimal(u, v) /\ (x # y \/ (a % 100 = 0 /\ b % 100 = 0)) THEN Sgn(x - y) ELSE 2
Compare(op, s) == CASE s = 3 -> Error [] s = 2 -> Open [] op = "<" -> Truth(s < 0) [] op = "<=" -> Truth(s <= 0)
                    [] op = ">" -> Truth(s > 0) [] OTHER -> Truth(s >= 0)
Equal(a, u, b, v) == LET s == Order(a, u, b, v) IN
   IF (u # v /\ a = 0 /\ b = 0 /\ ~Related(u, v)) \/ ({u, v} = {"pt", "pc"} /\ s = 0) THEN 2 ELSE IF s = 3 THEN 1 ELSE s
Binary(op, a, u, b, v) ==
  CASE op \in {"+", "+="} -> Plus(a, u, b, v)
    [] op \in {"-", "-="} -> Plus(a, u, -b, v)
    [] op = "r+" -> Plus(a, u, b, v)            \* a text or number before: the length's unit counts
    [] op = "r-" -> Plus(-a, u, b, v)
    [] op = "/" -> Over(a, u, b, v)
    [] op \in {"<", "<=", ">", ">="} -> Compare(op, Order(a, u, b, v))
    [] op = "==" -> LET s == Equal(a, u, b, v) IN IF s = 2 THEN Open ELSE Truth(s = 0)
    [] op = "!=" -> LET s == Equal(a, u, b, v) IN IF s = 2 THEN Open ELSE Truth(s # 0)
    [] op = "*" -> IF a = 0 \/ b = 0 \/ u = v THEN Open ELSE IF u = "%" THEN Len0(a * b, 1000000, v, FALSE)
                   ELSE IF v = "%" THEN Len0(a * b, 1000000, u, FALSE) ELSE Open
\* ---- by a number k (in hundredths)
Scaling(op, a, u, k) ==
  CASE op \in {"*k", "k*", "*=k"} -> Len0(a * k, 10000, u, FALSE)
    [] op = "/k" -> IF k = 0 THEN Open ELSE Len0(a * Sgn(k), AbsL(k), u, FALSE)
    [] op = "neg" -> Len0(-a, 100, u, FALSE)
    [] op = "abs" -> Len0(AbsL(a), 100, u, FALSE)
\* ---- resolution in a context: sizes in px, ppi; -1 where not given
NoSize == -1
MinL(x, y) == IF x < y THEN x ELSE y
MaxL(x, y) == IF x < y THEN y ELSE x
Resolved(a, u, c) ==
  CASE u \in {"", "px"} -> Num(a, 100, FALSE)
    [] u = "pt" -> Num(4 * a, 300, TRUE)
    [] u = "pc" -> Num(16 * a, 100, FALSE)
    [] Family(u) = "paper" -> IF c.ppi = NoSize THEN Same ELSE NumK(a * Parts(u), c.ppi, 25400, u # "in")
    [] u = "em" -> IF c.font = NoSize THEN Same ELSE Num(a * c.font, 100, FALSE)
    [] u = "ex" -> IF c.height = NoSize THEN Same ELSE Num(a * c.height, 100, FALSE)
    [] u = "vw" -> IF c.box = <<>> THEN Same ELSE Num(a * c.box[1], 10000, FALSE)
    [] u = "vh" -> IF c.box = <<>> THEN Same ELSE Num(a * c.box[2], 10000, FALSE)
    [] u = "vmin" -> IF c.box = <<>> THEN Same ELSE Num(a * MinL(c.box[1], c.box[2]), 10000, FALSE)
    [] u = "vmax" -> IF c.box = <<>> THEN Same ELSE Num(a * MaxL(c.box[1], c.box[2]), 10000, FALSE)
    [] u = "%" -> Same
\* a percentage of a given length is that share of what the length resolves to
Share(a, c) ==
  IF c.rel = NoSize THEN Same
  ELSE LET r == Resolved(a * c.rel, c.relunit, c) IN
       CASE r.is = "number" -> [r EXCEPT !.d = r.d * 100]
         [] a = 0 -> Open
         [] OTHER -> [is |-> "length", n |-> a * c.rel, d |-> 10000, unit |-> c.relunit, near |-> FALSE]
Resolution(a, u, c) == IF u = "%" THEN Share(a, c) ELSE Resolved(a, u, c)
\* ---- readings without a context
Reading(op, a, u) ==
  CASE op = "float" -> IF Family(u) = "screen" THEN Num(a * Parts(u), 300, u = "pt") ELSE Num(a, 100, FALSE)
    [] op = "in_pixels" -> IF Family(u) = "screen" THEN Num(a * Parts(u), 300, u = "pt") ELSE None
    [] op = "in_inches" -> IF Family(u) = "paper" THEN Num(a * Parts(u), 25400, u # "in") ELSE None
    [] op = "value_in_units" -> Num(a, 100, FALSE)
ReadOps == {"float", "in_pixels", "in_inches", "value_in_units"}
\* ---- generation
PairOps == {"+", "+=", "-", "-=", "r+", "r-", "/", "<", "<=", ">", ">=", "==", "!=", "*"}
KOps == {"*k", "k*", "*=k", "/k", "neg", "abs"}
Pair(op, a, u, b, v) == [kind |-> "pair", op |-> op, a |-> a, u |-> u, b |-> b, v |-> v, gives |-> Binary(op, a, u, b, v)]
ByK(op, a, u, k) == [kind |-> "scale", op |-> op, a |-> a, u |-> u, b |-> k, v |-> "", gives |-> Scaling(op, a, u, k)]
Read(op, a, u) == [kind |-> "read", op |-> op, a |-> a, u |-> u, gives |-> Reading(op, a, u)]
Value(a, u, c) == [kind |-> "value", op |-> "", a |-> a, u |-> u, c |-> c, gives |-> Resolution(a, u, c)]
To(op, a, u, c) == [kind |-> "to", op |-> op, a |-> a, u |-> u, c |-> c, gives |-> Resolution(a, u, c)]
Signed == Amounts \union {-x : x \in Amounts}
RE(S) == RandomElement(S)
\* amounts on different orders of magnitude
RandAmount(x) == RE({RE(-400..400), RE(-20000..20000), 100 * RE(-30..30), 0})
RandContext(x) == [ppi |-> RE({NoSize, 96, 72, 300}), font |-> RE({NoSize, 12, 16, 20}), height |-> RE({NoSize, 8, 9}),
                   box |-> RE({<<>>, <<100, 250>>, <<640, 480>>, <<7, 7>>}), rel |-> RE({NoSize, 100, 80, 3}),
                   relunit |-> RE({"", "px", "pt", "pc", "in", "mm", "cm", "em", "ex", "vw", "vh", "vmin", "vmax"})]
Init == IF Random THEN note = None
        ELSE \/ \E op \in PairOps, a \in Signed, b \in Signed, u \in U, v \in U : note = Pair(op, a, u, b, v)
             \/ \E op \in KOps, a \in Signed, k \in Signed, u \in U : note = ByK(op, a, u, k)
             \/ \E op \in ReadOps, a \in Signed, u \in U : note = Read(op, a, u)
Draw == /\ Random /\ note = None
        /\ \E kind \in {RE({"pair", "pair", "scale", "value", "value", "to", "read"})}, u \in {RE(U)}, v \in {RE(U)}, a \in {RandAmount(1)}, b \in {RandAmount(2)},
              c \in {RandContext(1)}, po \in {RE(PairOps)}, ko \in {RE(KOps)} :
           \E w \in {IF RE(1..2) = 1 /\ Family(u) \in {"screen", "paper"} THEN RE({x \in U : Related(u, x)}) ELSE v} :
           \E e \in {IF Related(u, w) /\ Decimal(u, w) /\ RE(1..3) = 1 /\ (a * Parts(u)) % Parts(w) = 0 THEN (a * Parts(u)) \div Parts(w) ELSE b} :
           note' = CASE kind = "pair" -> Pair(po, a, u, e, w)
                     [] kind = "scale" -> ByK(ko, a, u, b)
                     [] kind = "read" -> Read(RE(ReadOps), a, u)
                     [] kind = "value" -> Value(a, u, c)
                     [] OTHER -> To(RE({"to_mm", "to_cm", "to_inch"}), a, u, [c EXCEPT !.ppi = IF c.ppi = NoSize THEN 96 ELSE c.ppi])
Spec == Init /\ [][Draw]_note
\* ---- laws
IsPair(op) == note # None /\ note.kind = "pair" /\ note.op = op
Hundredths(r) == (r.n * Parts(r.unit)) \div (r.d \div 100)      \* of a smallest part; exact
Small == AbsL(note.a) <= 300 /\ AbsL(note.b) <= 300
InvPlus == IsPair("+") /\ Small /\ note.gives.is = "length" /\ Related(note.u, note.v) =>
   LET r == note.gives
       s == Plus(note.b, note.v, note.a, note.u) IN
   /\ Hundredths(r) = (note.a * Parts(note.u)) + (note.b * Parts(note.v))
   /\ (s.is = "length" => Hundredths(r) = Hundredths(s))
InvMinus == IsPair("-") /\ Small /\ Related(note.u, note.v) => LET r == note.gives IN
   r.is = "length" /\ Hundredths(r) = (note.a * Parts(note.u)) - (note.b * Parts(note.v))
InvOrder == IsPair("<") /\ Related(note.u, note.v) =>
   Order(note.a, note.u, note.b, note.v) \in {2, -Order(note.b, note.v, note.a, note.u), Sgn((note.a * Parts(note.u)) - (note.b * Parts(note.v)))}
InvUnits == Parts("in") * 10 = 254 * Parts("mm") /\ Parts("pc") = 12 * Parts("pt") /\ Parts("cm") = 10 * Parts("mm") /\ Parts("pt") * 72 = 96 * Parts("px")
Emit == note # None => PrintT("@@" \o ToJson(note))
=============================================================================
