-------------------------------- MODULE Nearest --------------------------------
(* G12.  The point of a line closest to a given one, as the exact fraction of the way, and what
   makes it the closest: every other point of the line is farther away.                         *)
EXTENDS Geo, Json
CONSTANTS Coords, N, R    \* all lines and points over Coords, or: random ones up to R
VARIABLES a, b, p
vars == <<a, b, p>>
Sq(S) == S \X S
GSpec == a \in Sq(Coords) /\ b \in Sq(Coords) /\ p \in Sq(Coords) /\ [][UNCHANGED vars]_vars
RInit == a = <<0, 0>> /\ b = <<0, 0>> /\ p = <<0, 0>>
RNext == \E x \in {RandPt(R)} : \E d \in {RandPt(R)} : \E y \in {RandPt(R)} : \E k \in {RandomElement(-1..3)} :
           /\ a' = x /\ b' = CASE RandomElement(1..9) = 1 -> x [] RandomElement(1..5) = 1 -> <<d[1], x[2]>> [] OTHER -> d
           /\ p' = IF RandomElement(1..4) = 1 THEN Add(x, Times(k, Sub(d, x))) ELSE y
RSpec == RInit /\ [][RNext]_vars
L2 == Dot(Sub(b, a), Sub(b, a))
Num == Dot(Sub(b, a), Sub(p, a))
\* as a fraction <<n, d>> of the way from a to b
Free == IF L2 = 0 THEN <<0, 1>> ELSE <<Num, L2>>
Bound == IF L2 = 0 \/ Num <= 0 THEN <<0, 1>> ELSE IF Num >= L2 THEN <<1, 1>> ELSE <<Num, L2>>
At(f) == <<(a[1]*f[2]) + ((b[1] - a[1])*f[1]), (a[2]*f[2]) + ((b[2] - a[2])*f[1]), f[2]>>
\* squared distance times d^2
Far(f) == LET x == At(f) IN (((p[1]*x[3]) - x[1])*((p[1]*x[3]) - x[1])) + (((p[2]*x[3]) - x[2])*((p[2]*x[3]) - x[2]))
Closer(f, h) == (Far(f) * h[2]) * h[2] <= (Far(h) * f[2]) * f[2]
Small == L2 <= 40 /\ Abs(Num) <= 200       \* keeps the products below what integers hold here
InvClosest == Small => /\ \A n \in 0..4 : Closer(Bound, <<n, 4>>)
                       /\ \A n \in -6..10 : Closer(Free, <<n, 4>>)
InvFoot == L2 > 0 /\ Small => LET x == At(Free) IN Dot(<<(p[1]*x[3]) - x[1], (p[2]*x[3]) - x[2]>>, Sub(b, a)) = 0
Emit == PrintT("@@" \o ToJson([a |-> a, b |-> b, p |-> p, bound |-> At(Bound), free |-> At(Free)]))
=============================================================================
