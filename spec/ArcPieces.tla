------------------------------ MODULE ArcPieces ------------------------------
(* G06.  An arc is cut into pieces of equal turn: the joints are found by turning a rational direction.
   In a path, arcs are replaced one after the other, in any order, each by its pieces; everything else
   stays as it is, so that the result does not depend on the order.                                 *)
EXTENDS Walk
VARIABLES arc, joints, pieces,
          per,      \* pieces per turn (one arc) or quarter (path), a rational
          list      \* the path with some of its arcs replaced: [seg, piece, of, s, e]; piece 0: not replaced
avars == <<vars, arc, joints, pieces, per, list>>
AInit == Init /\ arc = <<>> /\ joints = <<>> /\ pieces = 0 /\ per = <<1, 1>> /\ list = <<>>
\* ---- one arc
Begin == pieces = 0 /\ \E b \in {RandArcOf(4)} : arc' = b /\ joints' = <<b.a0>> /\ pieces' = 1
         /\ per' = <<RandomElement(1..3), 1>> /\ UNCHANGED <<vars, list>>
Cut == pieces > 0 /\ Len(joints) <= arc.n /\
       joints' = Append(joints, (IF arc.dir > 0 THEN Spin(joints[Len(joints)], arc.turn) ELSE Unspin(joints[Len(joints)], arc.turn)))
       /\ UNCHANGED <<vars, arc, pieces, per, list>>
OneSpec == AInit /\ [][Begin \/ Cut]_avars
InvUnit == \A k \in 1..Len(joints) : Norm2(<<joints[k][1], joints[k][2]>>) = joints[k][3] * joints[k][3]
\* All pieces turn by the same angle.
InvEqual == \A k \in 2..(Len(joints) - 1) : LET T(i) == Unspin(joints[i + 1], joints[i]) IN
              MaxI(joints[k + 1][3], T(k)[3]) > 10000
              \/ (Cross(T(k), T(1)) = 0 /\ Dot(T(k), T(1)) > 0)
OneEmit == (pieces > 0 /\ Len(joints) = arc.n + 1) =>
   PrintT("@@" \o ToJson([arc |-> arc, per |-> per, joints |-> [k \in 1..Len(joints) |-> OnEllipse(arc.c, arc.u, arc.v, joints[k])]]))
\* ---- arcs in a path
Plain(i) == [seg |-> i, piece |-> 0, of |-> 0, s |-> segs[i].net[1], e |-> EndOf(segs[i])]
\* (without a moveto a closepath returns to the end of the first segment, which would then be the first piece)
Lift == phase = "draw" /\ Len(segs) = Size /\ segs[1].kind = "move" /\ phase' = "lift" /\ list' = [i \in 1..Len(segs) |-> Plain(i)]
        /\ per' = RandomElement({<<1, 1>>, <<2, 1>>, <<3, 1>>, <<4, 3>>, <<5, 4>>, <<3, 2>>, <<7, 3>>, <<1, 2>>, <<1, 3>>, <<5, 2>>, <<1, 5>>})
        /\ UNCHANGED <<segs, cur, z, at, w, seen, arc, joints, pieces>>
IsArc(x) == x.piece = 0 /\ segs[x.seg].kind = "arc"
QuarterPoint(a, k) == Add(a.c, Times(a.u[1], Axes[((((CHOOSE q \in 1..4 : Append(Axes[q], 1) = a.a0) - 1) + (k * a.dir) + 8) % 4) + 1]))
\* joints at whole quarters are known exactly; the others have none here
\* (quarter j of n pieces of an arc of a.n quarters)
At(a, j, n) == IF (j * a.n) % n = 0 THEN QuarterPoint(a, (j * a.n) \div n) ELSE <<>>
\* per is the number of pieces of a quarter turn that the error asks for, at least.
Pieces(a) == ((a.n * per[1]) + per[2] - 1) \div per[2]
PieceOf(x, j) == LET a == segs[x.seg].arc  n == Pieces(a) IN
   [seg |-> x.seg, piece |-> j, of |-> n, s |-> At(a, j - 1, n), e |-> At(a, j, n)]
Replace == phase = "lift" /\ \E k \in {i \in 1..Len(list) : IsArc(list[i])} :
           list' = SubSeq(list, 1, k - 1) \o [j \in 1..Pieces(segs[list[k].seg].arc) |-> PieceOf(list[k], j)] \o SubSeq(list, k + 1, Len(list))
           /\ UNCHANGED <<vars, arc, joints, pieces, per>>
PathSpec == AInit /\ [][(Draw /\ UNCHANGED <<arc, joints, pieces, per, list>>) \/ Lift \/ Replace]_avars
InvOrder == phase = "lift" =>
  /\ \A i \in 1..(Len(list) - 1) : \/ list[i + 1].seg = list[i].seg + 1 /\ list[i].piece = list[i].of /\ list[i + 1].piece <= 1
                                   \/ list[i + 1].seg = list[i].seg /\ list[i + 1].piece = list[i].piece + 1
  /\ list[1].seg = 1 /\ list[Len(list)].seg = Len(segs)
  /\ \A i \in 1..(Len(list) - 1) : list[i].e = list[i + 1].s
PathEmit == (phase = "lift" /\ ~\E i \in 1..Len(list) : IsArc(list[i])) => PrintT("@@" \o ToJson([segs |-> segs, per |-> per, list |-> list]))
=============================================================================
