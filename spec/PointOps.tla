-------------------------------- MODULE PointOps --------------------------------
(* G09.  Two points (rational, <<x, y, r>>) under vector operations with each other and with given
   vectors; the second operand and the result are seen after every step.                          *)
EXTENDS Affine, Json
CONSTANTS Steps
VARIABLES p, q, hist
vars == <<p, q, hist>>
N3(v) == LET g == GcdAll(v) IN LET D(x) == IF x < 0 THEN -((-x) \div g) ELSE x \div g IN
         IF v[3] < 0 THEN <<-D(v[1]), -D(v[2]), -D(v[3])>> ELSE <<D(v[1]), D(v[2]), D(v[3])>>
Plus(v, u) == N3(<<(v[1]*u[3]) + (u[1]*v[3]), (v[2]*u[3]) + (u[2]*v[3]), v[3]*u[3]>>)
Minus(v, u) == Plus(v, <<-u[1], -u[2], u[3]>>)
Scaled(v, k) == N3(<<v[1]*k[1], v[2]*k[1], v[3]*k[2]>>)           \* by a rational
Complex(v, u) == N3(<<(v[1]*u[1]) - (v[2]*u[2]), (v[1]*u[2]) + (v[2]*u[1]), v[3]*u[3]>>)
Fit3(v) == v[3] <= 400 /\ Abs(v[1]) <= 8000 /\ Abs(v[2]) <= 8000
Vec == {<<3, -4, 1>>, <<1, 0, 1>>, <<0, 0, 1>>, <<-5, 12, 2>>, <<7, 7, 4>>, <<0, -2, 1>>, <<-1, -1, 1>>, <<9, 2, 1>>}
Nums == {<<2, 1>>, <<-1, 1>>, <<1, 2>>, <<0, 1>>, <<3, 4>>, <<-3, 2>>, <<1, 1>>}
Real(k) == <<k[1], 0, k[2]>>
Init == p = <<0, 0, 1>> /\ q = <<0, 0, 1>> /\ hist = <<>>
\* the operand is the other point or a given vector, in one of several kinds
Do(op, kind, u, k, np, nq) ==
  /\ Fit3(np) /\ Fit3(nq) /\ p' = np /\ q' = nq
  /\ hist' = Append(hist, [op |-> op, kind |-> kind, u |-> u, k |-> k, p |-> np, q |-> nq,
       dist |-> LET d == Minus(nq, np) IN [n2 |-> Norm2(<<d[1], d[2]>>), r |-> d[3], x |-> d[1], y |-> d[2]]])
Binary == \E kind \in {RandomElement({"point", "pair", "list", "complex", "other", "self"})} :
          \E v \in {RandomElement(Vec)} : \E op \in {RandomElement({"add", "radd", "iadd", "sub", "rsub", "isub", "mul", "imul", "rmul"})} :
   LET u == CASE kind = "other" -> q [] kind = "self" -> p [] OTHER -> v IN
   Do(op, kind, u, <<>>, CASE op \in {"add", "radd", "iadd"} -> Plus(p, u) [] op \in {"sub", "isub"} -> Minus(p, u)
                           [] op = "rsub" -> Minus(u, p) [] OTHER -> Complex(p, u), q)
Number == \E k \in {RandomElement(Nums)} : \E op \in {RandomElement({"add", "radd", "iadd", "sub", "rsub", "isub", "mul", "imul", "rmul", "mul", "rmul"})} :
   Do(op, "number", <<>>, k, CASE op \in {"add", "radd", "iadd"} -> Plus(p, Real(k)) [] op \in {"sub", "isub"} -> Minus(p, Real(k))
                           [] op = "rsub" -> Minus(Real(k), p) [] OTHER -> Scaled(p, k), q)
Set == \E v \in {RandomElement(Vec)} : \E kind \in {RandomElement({"point", "pair", "list", "complex", "text", "items", "copy"})} :
   Do("set", kind, v, <<>>, v, q)
\* whole powers, the inverse included
Small == Abs(p[1]) <= 20 /\ Abs(p[2]) <= 20 /\ p[3] <= 7
Power == \E n \in {RandomElement({-1, 0, 1, 2, 3})} :
   /\ (n \in {-1, 3}) => Small
   /\ (n = 2) => (Abs(p[1]) <= 89 /\ Abs(p[2]) <= 89 /\ p[3] <= 20)
   /\ (n = -1) => (<<p[1], p[2]>> # <<0, 0>>)
   /\ Do("pow", "", <<>>, <<n, 1>>, CASE n = 0 -> <<1, 0, 1>> [] n = 1 -> p [] n = 2 -> Complex(p, p) [] n = 3 -> Complex(Complex(p, p), p)
                            [] OTHER -> N3(<<p[1]*p[3], -(p[2]*p[3]), Norm2(<<p[1], p[2]>>)>>), q)
Swap == Do("swap", "", <<>>, <<>>, q, p)
Reflect == Do("reflect", RandomElement({"point", "pair", "complex"}), q, <<>>, Minus(Plus(q, q), p), q)
Towards == \E k \in {RandomElement(Nums)} : \E op \in {RandomElement({"towards", "move_towards"})} :
   Do(op, RandomElement({"point", "pair"}), q, k, Plus(p, Scaled(Minus(q, p), k)), q)
\* by an angle known by its direction, and a distance
Polar == \E t \in {RandomElement(Turns)} : \E k \in {RandomElement(Nums)} : \E op \in {RandomElement({"polar", "polar_to"})} :
   Do(op, "", t, k, Plus(p, N3(<<t[1]*k[1], t[2]*k[1], t[3]*k[2]>>)), q)
Transform == \E o \in {RandomElement(OpNames)} : \E e \in {RandOp(o)} : \E op \in {RandomElement({"matrix_mul", "matrix_imul", "matrix_transform", "matrix_text"})} :
   Do(op, "", Elem(e), <<>>, N3(Image(p, Elem(e))), q)
Conjugate == Do("conjugate", "", <<>>, <<>>, <<p[1], -p[2], p[3]>>, q)
Step == Len(hist) < Steps /\ \E k \in {RandomElement(1..17)} :
   CASE k <= 5 -> Binary [] k <= 7 -> Number [] k = 8 -> Swap [] k = 9 -> Reflect [] k <= 11 -> Towards [] k <= 13 -> Polar
     [] k = 14 -> Transform [] k = 15 -> Set [] k = 16 -> Power [] OTHER -> IF RandomElement(1..3) = 1 THEN Conjugate ELSE Set
Spec == Init /\ [][Step]_vars
\* ---- vector laws
InvLaws == /\ Plus(Minus(q, p), p) = N3(q) /\ Plus(p, q) = Plus(q, p)
           /\ Minus(Plus(q, q), Minus(Plus(q, q), p)) = N3(p)                       \* reflecting twice
           /\ Plus(p, Scaled(Minus(q, p), One)) = N3(q)
\* the inverse is the complex inverse
InvPower == (Small /\ <<p[1], p[2]>> # <<0, 0>>) => (Complex(p, N3(<<p[1]*p[3], -(p[2]*p[3]), Norm2(<<p[1], p[2]>>)>>)) = <<1, 0, 1>>)
\* moving by the measured angle and distance arrives
InvPolar == LET d == Minus(q, p)
                n == Norm2(<<d[1], d[2]>>) IN
            (Square(n) /\ n > 0) => LET t == <<d[1], d[2], Root(n)>> IN
              Plus(p, N3(<<t[1]*Root(n), t[2]*Root(n), t[3]*d[3]>>)) = N3(q)
Emit == Len(hist) = Steps => PrintT("@@" \o ToJson(hist))
=============================================================================
