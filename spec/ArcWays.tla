-------------------------------- MODULE ArcWays --------------------------------
(* G10, G11.  An arc walked on its ellipse (as in ArcEnds) can be given in other ways than by its end
   point form: by its center and some of its ends and sweep, by a point it runs through, by how far it
   bulges, by a radius, by the box of its ellipse, as the quarter that rounds a corner.  Each way that
   determines the arc must lead to it.                                                             *)
EXTENDS ArcEnds
\* kinds: general ellipses, ellipses along the axes, circles, corners
RandWay(kd) == Pick({[kind |-> kd, c |-> c, u |-> Times(a, u), v |-> Times(b, <<-u[2], u[1]>>), a0 |-> d, turn |-> StepTurns[k],
                      n |-> IF kd = "corner" THEN 1 ELSE IF kd = "level" THEN 2 ELSE RandomElement(1..MaxSteps[k]), dir |-> RandomElement({1, -1}), shrink |-> <<1, 1>>, flat |-> 1] :
   k \in {IF kd \in {"corner", "level"} THEN 1 ELSE RandomElement(1..6)},
   c \in {RandPt(20)}, d \in {Units[IF kd \in {"corner", "level"} THEN RandomElement(1..4) ELSE RandomElement(1..11)]},
   u \in {CASE kd \in {"box", "corner"} -> RandomElement({<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -2>>})
            [] kd = "level" -> RandomElement({<<1, 1>>, <<-1, 1>>, <<1, -1>>, <<-1, -1>>})
            [] kd = "close" -> RandomElement({<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<1, 1>>})
            [] OTHER -> RandomElement({<<1, 0>>, <<0, 1>>, <<3, 4>>, <<-4, 3>>, <<-3, -4>>, <<4, -3>>, <<-1, -2>>, <<-1, 0>>, <<0, -2>>, <<5, -12>>, <<1, 1>>, <<-2, 1>>})},
   a \in {1}, b \in {1}})
\* the two radii of a kind are drawn together
Sized(w, a, b) == [w EXCEPT !.u = Times(a, @), !.v = Times(b, @)]
\* level chords: half a circle whose middle point is level with one end and upright over the other;
\* close: the radii differ by little
Kinds == <<"general", "box", "circle", "circle", "corner", "level", "close">>
Begin == at = -1 /\ \E k \in {Kinds[RandomElement(1..7)]} :
           \E w \in {RandWay(k)}, a \in {RandomElement(1..9)}, b \in {RandomElement(1..9)}, cl \in {RandomElement(CloseRadii)} :
           \E s \in {CASE k \in {"circle", "level"} -> Sized(w, a, a)
                       [] k = "close" -> Sized(w, cl[1], cl[2])
                       [] OTHER -> Sized(w, a, b)} :
           arc' = s /\ dir' = s.a0 /\ at' = 0 /\ dirs' = <<s.a0>> /\ large' = FALSE /\ form' = RandomElement(1..100000)
WaySpec == Init /\ [][Begin \/ Go]_vars
Closed == dirs[1][1] * dir[3] = dir[1] * dirs[1][3] /\ dirs[1][2] * dir[3] = dir[2] * dirs[1][3]
HalfTurn == Cross(V2(dirs[1]), V2(dir)) = 0 /\ ~Closed
Round == Norm2(arc.u) = Norm2(arc.v)
Level == arc.u[1] = 0 \/ arc.u[2] = 0
\* Which ways determine the arc.
Ways == {"all", "noend", "nostart", "axes noend", "axes nostart", "axes both"}
        \union (IF Closed THEN {} ELSE {"turn", "axes turn"})
        \union (IF Level THEN {"box noend"} \union (IF Closed THEN {} ELSE {"box turn"}) ELSE {})
        \union (IF Round THEN {"r noend", "center noend", "center nostart"} \union (IF Closed THEN {} ELSE {"center turn", "r center", "bulge", "sagitta"})
                             \union (IF ~Closed /\ arc.n > 1 THEN {"control"} ELSE {})
                             \union (IF ~Closed /\ ~large /\ ~HalfTurn THEN {"r"} ELSE {})
                ELSE {})
        \union (IF arc.kind = "corner" /\ Level THEN {"corner"} ELSE {})
\* A circle is determined by three points: the point passed on the way is as far from the center as the ends.
InvRound == (Done /\ Round) => \A k \in 1..Len(dirs) : LET p == OnEllipse(arc.c, arc.u, arc.v, dirs[k])
                                                           e == <<p[1] - (arc.c[1] * p[3]), p[2] - (arc.c[2] * p[3])>> IN
                                                       p[3] > 300 \/ Norm2(e) = Norm2(arc.u) * p[3] * p[3]
\* A minor arc of a circle lies on the side of its chord away from the center, and turns about it the short way.
InvMinor == (Done /\ Round /\ ~Closed /\ ~HalfTurn) => (Cross(V2(dirs[1]), V2(dir)) * arc.dir > 0) = ~large
\* G11: what can be asked about an arc.  The parameter of a point is its direction in the frame of the ellipse,
\* its angle the direction from the center; both go round together, meeting on the axes.
Seen(d) == <<(arc.u[1] * d[1]) + (arc.v[1] * d[2]), (arc.u[2] * d[1]) + (arc.v[2] * d[2])>>
InvFrame == Done => \A k \in 1..Len(dirs) : LET d == dirs[k]  q == Seen(d) IN
   d[3] > 300 \/ (Dot(q, arc.u) = d[1] * Norm2(arc.u) /\ Dot(q, arc.v) = d[2] * Norm2(arc.v))
\* in the same quadrant of the frame, so that neither is half a turn off
InvQuadrant == Done => \A k \in 1..Len(dirs) : LET d == dirs[k]  q == Seen(d) IN d[3] > 300 \/
   (\A s \in {1, -1} : ((s * d[1] > 0) = (s * Dot(q, arc.u) > 0)) /\ ((s * d[2] > 0) = (s * Cross(arc.u, q) > 0)))
EmitQuery == Done => PrintT("@@" \o ToJson([arc |-> arc, form |-> form, closed |-> Closed, circular |-> Round, dirs |-> dirs,
                 seen |-> [k \in 1..Len(dirs) |-> Seen(dirs[k])], pts |-> [k \in 1..Len(dirs) |-> OnEllipse(arc.c, arc.u, arc.v, dirs[k])]]))
EmitWays == Done => PrintT("@@" \o ToJson([arc |-> arc, large |-> large, form |-> form, half |-> HalfTurn, closed |-> Closed, ways |-> Ways, level |-> Level, dirs |-> dirs,
                 pts |-> [k \in 1..Len(dirs) |-> OnEllipse(arc.c, arc.u, arc.v, dirs[k])]]))
=============================================================================
