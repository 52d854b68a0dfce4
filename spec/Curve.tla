-------------------------------- MODULE Curve --------------------------------
(* G01.  Walking down the halves of a curve: a Bezier curve is its control net, and halving it again
   and again reaches every dyadic parameter; an elliptical arc is a direction on its ellipse which
   one turn after the other moves by equal angles.                                              *)
EXTENDS Geo, Json
CONSTANTS Depth
VARIABLES net,    \* the control net of the interval [at, at + 1] / 2^level, scaled
          base,   \* the whole curve
          at, level, scale, seen
vars == <<net, base, at, level, scale, seen>>

\* arcs: base is [c, u, v, a0, turn, n, dir]; net is the direction now
Init == net = <<>> /\ base = <<>> /\ at = 0 /\ level = -1 /\ scale = 1 /\ seen = <<>>
Note(t, d, p, s) == Append(seen, [t |-> t, d |-> d, p |-> p, s |-> s])
Start == level = -1 /\ \E n \in {RandNet(RandomElement(2..4), 60)} :
           net' = n /\ base' = n /\ at' = 0 /\ level' = 0 /\ scale' = 1
           /\ seen' = <<[t |-> 0, d |-> 1, p |-> n[1], s |-> 1], [t |-> 1, d |-> 1, p |-> n[Len(n)], s |-> 1]>>
Halve == level \in 0..(Depth - 1) /\ \E side \in {RandomElement({0, 1})} :
           LET deg == Len(base) - 1
               l == Left(net)  r == Right(net)
               nn == IF side = 0 THEN l ELSE r
               sc == scale * Pow(2, deg) IN
           /\ net' = nn /\ base' = base /\ at' = 2 * at + side /\ level' = level + 1 /\ scale' = sc
           /\ seen' = Note(2 * at + 1, Pow(2, level + 1), r[1], sc)
\* The halves meet, and every end of an interval is the Bernstein point of its parameter.
InvHalves == level >= 0 =>
  /\ net[1] = Bernstein(base, at, Pow(2, level))
  /\ net[Len(net)] = Bernstein(base, at + 1, Pow(2, level))
Spec == Init /\ [][Start \/ Halve]_vars
Emit == level # Depth \/ PrintT("@@" \o ToJson([net |-> base, seen |-> seen]))

ArcStart == level = -1 /\ \E b \in {RandArcOf(4)} :
              base' = b /\ net' = b.a0 /\ at' = 0 /\ level' = 0 /\ scale' = 1
              /\ seen' = <<[t |-> 0, d |-> b.n, p |-> OnEllipse(b.c, b.u, b.v, b.a0), s |-> 1]>>
ArcTurn == level = 0 /\ at < base.n /\
           LET a == IF base.dir > 0 THEN Spin(net, base.turn) ELSE Unspin(net, base.turn) IN
           /\ net' = a /\ at' = at + 1 /\ UNCHANGED <<base, level, scale>>
           /\ seen' = Note(at + 1, base.n, OnEllipse(base.c, base.u, base.v, a), 1)
\* Every direction has integer norm: all points are on the ellipse.
InvUnit == level = 0 => Norm2(<<net[1], net[2]>>) = net[3] * net[3]
ArcSpec == Init /\ [][ArcStart \/ ArcTurn]_vars
ArcEmit == (level = 0 /\ at = base.n) => PrintT("@@" \o ToJson([arc |-> base, seen |-> seen]))
=============================================================================
