--------------------------------- MODULE Geo ---------------------------------
(* Exact plane geometry on integers: vectors, Bezier nets halved by de Casteljau, turns by angles
   with rational cosine and sine, integer roots.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Abs(n) == IF n < 0 THEN -n ELSE n
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Add(p, q) == <<p[1] + q[1], p[2] + q[2]>>
Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Times(k, p) == <<k * p[1], k * p[2]>>
Cross(p, q) == p[1] * q[2] - p[2] * q[1]
Dot(p, q) == p[1] * q[1] + p[2] * q[2]
Turn(p, q, r) == Cross(Sub(q, p), Sub(r, p))    \* > 0: r is to the left (in a right handed plane)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

(* ---- Bezier nets: sequences of points.  Halving multiplies the scale by 2^degree. ------------- *)
Means(net) == [i \in 1..(Len(net) - 1) |-> Add(net[i], net[i + 1])]     \* twice the midpoints
RECURSIVE Left(_), Right(_)
Left(net) == IF Len(net) = 1 THEN net
             ELSE <<Times(Pow(2, Len(net) - 1), net[1])>> \o Left(Means(net))
Right(net) == IF Len(net) = 1 THEN net
              ELSE Append(Right(Means(net)), Times(Pow(2, Len(net) - 1), net[Len(net)]))
\* The Bernstein polynomial at a/n, times n^degree.
Choose(n, k) == CASE k = 0 -> 1 [] k = n -> 1 [] n = 2 -> 2 [] OTHER -> 3
RECURSIVE SumPts(_)
SumPts(ps) == IF ps = <<>> THEN <<0, 0>> ELSE Add(ps[1], SumPts(Tail(ps)))
Bernstein(net, a, n) ==
  LET d == Len(net) - 1 IN
  SumPts([i \in 1..(d + 1) |-> Times(Choose(d, i - 1) * Pow(a, i - 1) * Pow(n - a, d - i + 1), net[i])])

(* ---- directions: Gaussian integers of integer norm: <<x, y, r>> with x^2 + y^2 = r^2 ----------- *)
Spin(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1], a[3]*b[3]>>
Unspin(a, b) == Spin(a, <<b[1], -b[2], b[3]>>)
RECURSIVE Spins(_, _, _)
Spins(a, b, n) == IF n = 0 THEN a ELSE IF n > 0 THEN Spins(Spin(a, b), b, n - 1) ELSE Spins(Unspin(a, b), b, n + 1)
\* The point center + u*cos + v*sin as <<x, y, r>>.
OnEllipse(c, u, v, a) == <<c[1]*a[3] + u[1]*a[1] + v[1]*a[2], c[2]*a[3] + u[2]*a[1] + v[2]*a[2], a[3]>>

(* ---- integer square roots ------------------------------------------------------------------------ *)
RECURSIVE RootIn(_, _, _)
RootIn(n, lo, hi) == IF lo >= hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN RootIn(n, m, hi) ELSE RootIn(n, lo, m - 1)
Root(n) == RootIn(n, 0, MinI(n, 46340))       \* floor
RootUp(n) == IF Root(n) * Root(n) = n THEN Root(n) ELSE Root(n) + 1
Square(n) == Root(n) * Root(n) = n
Norm2(p) == p[1] * p[1] + p[2] * p[2]

(* ---- random material -------------------------------------------------------------------------- *)
RandPt(b) == <<RandomElement(-b..b), RandomElement(-b..b)>>
\* degenerate control nets are as interesting as general ones
\* Random values are bound by sets and evaluated at once, so that they are drawn only once.
Pick(S) == CHOOSE x \in S : TRUE
Shaped(w, n, base, d, ks) ==
  CASE w = 1 -> [base EXCEPT ![2] = base[1]]
    [] w = 2 -> [base EXCEPT ![n - 1] = base[n]]
    [] w = 3 -> [i \in 1..n |-> Add(base[1], Times(ks[i], d))]
    [] w = 4 -> [base EXCEPT ![n] = base[1]]
    [] w = 5 -> [i \in 1..n |-> Add(base[1], Times(i - 1, d))]
    [] OTHER -> base
RandNet(n, b) == Pick({Shaped(w, m, base, d, ks) : w \in {RandomElement(1..8)}, m \in {n}, base \in {TLCEval([i \in 1..n |-> RandPt(b)])},
                       d \in {RandPt(MaxI(1, b \div 8))}, ks \in {TLCEval([i \in 1..n |-> RandomElement(-9..9)])}})
Units == << <<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<3, 4, 5>>, <<-3, 4, 5>>, <<4, -3, 5>>, <<-4, -3, 5>>,
            <<5, 12, 13>>, <<-12, 5, 13>>, <<12, -5, 13>> >>
\* The turns of one step of an arc: less than half a turn.
StepTurns == << <<0, 1, 1>>, <<3, 4, 5>>, <<4, 3, 5>>, <<-3, 4, 5>>, <<5, 12, 13>>, <<12, 5, 13>> >>
MaxSteps == <<4, 4, 4, 2, 3, 3>>         \* up to a whole turn (and within 32 bits)
(* Arcs [c, u, v, a0, turn, n, dir]: center, radii to the points at 0 and a quarter turn, direction of
   the start, n equal turns one way or the other.  Some are nearly circles, nearly along the axes or very
   long (with few turns, to stay within 32 bits).                                                    *)
ArcWith(k, n, u, a, b) == Pick({[c |-> c, u |-> Times(a, u), v |-> Times(b, <<-u[2], u[1]>>), a0 |-> d,
                     turn |-> StepTurns[k], n |-> RandomElement(1..n), dir |-> RandomElement({1, -1})] :
                     c \in {RandPt(20)}, d \in {Units[RandomElement(1..11)]}})
PlainAxes == {<<1, 0>>, <<0, 1>>, <<3, 4>>, <<-4, 3>>, <<-3, -4>>, <<4, -3>>, <<-1, -2>>, <<-1, 0>>, <<0, -2>>, <<5, -12>>, <<1, 1>>, <<-2, 1>>}
SlantAxes == {<<1, 60>>, <<60, 1>>, <<-1, 1001>>, <<1001, -1>>, <<-60, -1>>, <<2, -301>>}
CloseRadii == {<<1000, 1001>>, <<1001, 1000>>, <<250, 249>>, <<60, 61>>, <<1, 300>>, <<200, 1>>}
RandArcOf(steps) ==
  Pick({CASE w = 1 -> ArcWith(k, IF k = 1 THEN steps ELSE 1, u1, a, b)
          [] w = 2 -> ArcWith(k, IF k = 1 THEN steps ELSE 1, u2, ab[1], ab[2])
          [] OTHER -> ArcWith(k, MinI(steps, MaxSteps[k]), u0, a, b) :
        w \in {RandomElement(1..10)}, k \in {RandomElement(1..6)}, a \in {RandomElement(1..9)}, b \in {RandomElement(1..9)},
        u0 \in {RandomElement(PlainAxes)}, u1 \in {RandomElement(SlantAxes)}, u2 \in {RandomElement({<<1, 0>>, <<0, 1>>, <<3, 4>>, <<-1, 0>>, <<0, -1>>})},
        ab \in {RandomElement(CloseRadii)}})
=============================================================================
