-------------------------------- MODULE ArcBox --------------------------------
(* G03, G04.  The extent of an elliptical arc: it is walked in equal turns, and every quarter
   extremum of the whole ellipse which lies within a turn becomes a side of the box; the others
   are the ends' business.  Directions are exact, so that membership is decided by signs.        *)
EXTENDS Geo, Json
VARIABLES arc, dir, at, hit, dirs
vars == <<arc, dir, at, hit, dirs>>
\* the directions of the extrema: right, bottom, left, top (y downwards: 1 max x, 2 max y, 3 min x, 4 min y)
Towards(q) == CASE q = 1 -> <<arc.u[1], arc.v[1]>> [] q = 2 -> <<arc.u[2], arc.v[2]>>
                [] q = 3 -> <<-arc.u[1], -arc.v[1]>> [] OTHER -> <<-arc.u[2], -arc.v[2]>>
V2(d) == <<d[1], d[2]>>
\* e within the turn (less than half) from a counterclockwise to b
InTurn(e, a, b) == Cross(V2(a), e) >= 0 /\ Cross(e, V2(b)) >= 0
Extent2(i) == arc.u[i] * arc.u[i] + arc.v[i] * arc.v[i]
Init == arc = <<>> /\ dir = <<>> /\ at = -1 /\ hit = {} /\ dirs = <<>>
Start == at = -1 /\ \E b \in {RandArcOf(4)} : arc' = b /\ dir' = b.a0 /\ at' = 0 /\ hit' = {} /\ dirs' = <<b.a0>>
Go == at >= 0 /\ at < arc.n /\
      LET d == IF arc.dir > 0 THEN Spin(dir, arc.turn) ELSE Unspin(dir, arc.turn) IN
      /\ dir' = d /\ at' = at + 1 /\ arc' = arc /\ dirs' = Append(dirs, d)
      /\ hit' = hit \cup {q \in 1..4 : IF arc.dir > 0 THEN InTurn(Towards(q), dir, d) ELSE InTurn(Towards(q), d, dir)}
Spec == Init /\ [][Start \/ Go]_vars
P(d) == OnEllipse(arc.c, arc.u, arc.v, d)
First == P(dirs[1])
Final == P(dirs[Len(dirs)])
\* Every point passed is within the extent of the whole ellipse, and beyond the ends only if an
\* extremum on that side was passed.
Less(x, rx, y, ry) == x * ry < y * rx
InvPassed == (at > 0 /\ dir[3] < (IF Extent2(1) + Extent2(2) < 40000 THEN 3000 ELSE 30)) => \A i \in 1..2 : \A k \in 1..Len(dirs) :
    LET p == P(dirs[k]) IN
    (Less(First[i], First[3], p[i], p[3]) /\ Less(Final[i], Final[3], p[i], p[3])) => i \in hit
InvTurns == at > 0 => Cardinality(hit) <= at * 2 + 2
Done == at >= 0 /\ at = arc.n
InvWhole == (Done /\ arc.turn = <<0, 1, 1>> /\ at = 4) => hit = 1..4
Emit == Done => PrintT("@@" \o ToJson([arc |-> arc, dirs |-> dirs, pts |-> [k \in 1..Len(dirs) |-> P(dirs[k])],
                                       hit |-> [q \in 1..4 |-> q \in hit], h2 |-> <<Extent2(1), Extent2(2)>>]))
=============================================================================
