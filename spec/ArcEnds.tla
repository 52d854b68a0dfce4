-------------------------------- MODULE ArcEnds --------------------------------
(* G05.  From the center to the ends: an arc is walked on its ellipse, in equal turns, from a start
   direction; where it arrives, how often it was beyond half a turn and in which direction are the
   end point form of SVG, which must lead back to the same arc.                                   *)
EXTENDS Geo, Json
VARIABLES arc, dir, at, dirs, large, form
vars == <<arc, dir, at, dirs, large, form>>
\* shrink: by how much the radii given are smaller than the ellipse's (half turns only);
\* kind: "arc", "near" (a little less than half a turn), "small", "flat" (a zero radius), "same" (equal ends)
RandArc(kd) == Pick({[kind |-> kd, c |-> c, u |-> Times(a, u), v |-> Times(b, <<-u[2], u[1]>>), a0 |-> d,
                     turn |-> IF kd = "small" THEN <<0, 1, 1>> ELSE IF kd = "near" THEN <<-9999, 200, 10001>> ELSE StepTurns[k],
                     n |-> IF kd = "small" THEN 2 ELSE IF kd = "near" THEN 1 ELSE RandomElement(1..MinI(IF k = 1 THEN 3 ELSE 4, MaxSteps[k])),
                     dir |-> RandomElement({1, -1}), shrink |-> RandomElement({<<2, 1>>, <<3, 1>>, <<10, 1>>, <<1000, 1>>, <<10001, 10000>>, <<1000001, 1000000>>}), flat |-> RandomElement(1..3)] :
   k \in {RandomElement(1..6)}, c \in {RandPt(20)}, d \in {Units[RandomElement(1..11)]},
   u \in {RandomElement({<<1, 0>>, <<0, 1>>, <<3, 4>>, <<-4, 3>>, <<-3, -4>>, <<4, -3>>, <<-1, -2>>, <<-1, 0>>, <<0, -2>>, <<5, -12>>, <<1, 1>>, <<-2, 1>>})},
   a \in {RandomElement(1..9)}, b \in {RandomElement(1..9)}})
V2(d) == <<d[1], d[2]>>
InTurn(e, a, b) == Cross(V2(a), e) >= 0 /\ Cross(e, V2(b)) > 0
Init == arc = <<>> /\ dir = <<>> /\ at = -1 /\ dirs = <<>> /\ large = FALSE /\ form = 0
Start == at = -1 /\ \E k \in {RandomElement({"arc", "arc2", "arc3", "small", "flat", "same", "near"})} :
                    \E b \in {RandArc(IF k \in {"arc2", "arc3"} THEN "arc" ELSE k)} :
           arc' = b /\ dir' = b.a0 /\ at' = 0 /\ dirs' = <<b.a0>> /\ large' = FALSE
           /\ form' = RandomElement(1..1000)
Go == at >= 0 /\ at < arc.n /\
      LET d == IF arc.dir > 0 THEN Spin(dir, arc.turn) ELSE Unspin(dir, arc.turn)
          opp == <<-dirs[1][1], -dirs[1][2]>> IN
      /\ dir' = d /\ at' = at + 1 /\ UNCHANGED <<arc, form>> /\ dirs' = Append(dirs, d)
      \* beyond half a turn once the opposite direction lies behind
      /\ large' = (large \/ IF arc.dir > 0 THEN InTurn(opp, dir, d) ELSE Cross(V2(dir), opp) <= 0 /\ Cross(opp, V2(d)) < 0)
Spec == Init /\ [][Start \/ Go]_vars
Done == at >= 0 /\ at = arc.n
\* The side of the chord on which the arc lies: its middle is on the outer side of the center
\* exactly when it is not large.  (For circles the center itself decides.)
InvLarge == (Done /\ arc.n # 4) =>
   LET s == Cross(V2(dirs[1]), V2(dir)) * arc.dir IN
   (s > 0 => ~large) /\ (s < 0 => large)
Emit == Done => PrintT("@@" \o ToJson([arc |-> arc, large |-> large, form |-> form,
                 half |-> Cross(V2(dirs[1]), V2(dir)) = 0, pts |-> [k \in 1..Len(dirs) |-> OnEllipse(arc.c, arc.u, arc.v, dirs[k])]]))
=============================================================================
