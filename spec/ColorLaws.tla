------------------------------ MODULE ColorLaws ------------------------------
(* V02, V03: what the definitions of Colors say together, for colors on a grid of channels.        *)
EXTENDS Colors
CONSTANTS Levels, Alphas
VARIABLES p, q
Init == p \in [1..4 -> Levels] /\ p[4] \in Alphas /\ q = <<>>
Next == q = <<>> /\ p' = p /\ q' \in {x \in [1..4 -> Levels] : x[4] \in Alphas}
Spec == Init /\ [][Next]_<<p, q>>
Two == q # <<>>
\* what the fields of a color say recovers the color
InvHue == \A i \in 1..3 : LET h == HueOf(p)
                              x == WithHue(p, h[1] \div (10000 * h[2]))[i] IN
            (h[1] % (10000 * h[2]) = 0 \/ AbsC((p[i] * x[2]) - x[1]) <= (x[2] * (1 + ((Max3(p) - Min3(p)) \div 60))))
            /\ (h[1] % (10000 * h[2]) = 0 => x[1] = p[i] * x[2])
InvSaturation == (Width(p) > 0 /\ ((1000 * (Max3(p) - Min3(p))) % Width(p)) = 0) =>
   \A i \in 1..3 : LET x == WithSaturation(p, (1000 * (Max3(p) - Min3(p))) \div Width(p))[i] IN x[1] = p[i] * x[2]
InvLightness == ((1000 * (Max3(p) + Min3(p))) % 510) = 0 =>
   \A i \in 1..3 : LET x == WithLightness(p, (1000 * (Max3(p) + Min3(p))) \div 510)[i] IN x[1] = p[i] * x[2]
InvGray == \A i \in 1..3 : LET x == WithSaturation(p, 0)[i] IN 2 * x[1] = (Max3(p) + Min3(p)) * x[2]
InvBlack == \A i \in 1..3 : WithLightness(p, 0)[i][1] = 0 /\ WithLightness(p, 1000)[i][1] = 255 * WithLightness(p, 1000)[i][2]
\* mixtures
InvOver == Two => \A i \in 1..3 : LET x == Over(p, q)[i] IN x[2] > 0 /\ Between(x[1], p[i] * x[2], q[i] * x[2])
InvOverAlpha == Two => LET x == Over(p, q)[4] IN x[1] >= p[4] * x[2] /\ x[1] >= q[4] * x[2] /\ x[1] <= 255 * x[2]
InvDistance == Two => /\ DistanceSq(p, q) = DistanceSq(q, p)
                      /\ (DistanceSq(p, q) = 0) = (\A i \in 1..3 : p[i] = q[i])
=============================================================================
