------------------------------- MODULE Uniform -------------------------------
(* G04.  Quadratics that run nearly uniformly along a direction d of whole length h: control points
   p, p + N d, p + 2 N d + m with a small m.  Along d they advance (2 N h^2 + m . d) / h; they leave
   that direction by c = m x d / h, which adds c^2 / (3 N h) to the length, up to a fraction of
   about |m| / (N h) of that: at 0 <= t <= 1 they move by 2 N h + 2 t m . d / h along and 2 t c across. *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Sizes
VARIABLES d, n, m, p
vars == <<d, n, m, p>>
Bends == {-7, -2, 0, 1, 5}
Dirs == {<<3, 4, 5>>, <<-4, 3, 5>>, <<5, -12, 13>>, <<-15, -8, 17>>, <<1, 0, 1>>, <<0, -1, 1>>}
Init == /\ d \in Dirs /\ n \in Sizes /\ m \in Bends \X Bends
        /\ \E x, y \in {RandomElement(-1000..1000)} : p = <<x, y>>
Spec == Init /\ [][UNCHANGED vars]_vars
At(k, b) == <<p[1] + (k * d[1]) + (b * m[1]), p[2] + (k * d[2]) + (b * m[2])>>
Net == <<p, At(n, 0), At(2 * n, 1)>>
Dot(a, b) == (a[1] * b[1]) + (a[2] * b[2])
Advance == (2 * n * (d[3] * d[3])) + Dot(m, d)
\* It never turns back, so that the advance is all there is along d.
InvForward == n * (d[3] * d[3]) + Dot(m, d) > 0 /\ d[3] * d[3] = Dot(d, d)
Cross(a, b) == (a[1] * b[2]) - (a[2] * b[1])
Mag(x) == IF x < 0 THEN -x ELSE x
Emit == PrintT("@@" \o ToJson([net |-> Net, len |-> <<Advance, d[3]>>, bow |-> <<Cross(m, d), d[3]>>,
                               far |-> n * d[3], slack |-> Mag(m[1]) + Mag(m[2])]))
=============================================================================
