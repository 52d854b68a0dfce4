--------------------------------- MODULE Hull ---------------------------------
(* G08.  A scan over the points from left to right and back keeps a stack on which every turn is to the
   left; what remains are the corners.  They must be the extreme points: those that no segment and no
   triangle of other points contains.                                                              *)
EXTENDS Geo, Json
CONSTANTS W, H,          \* the grid whose subsets are all scanned
          N, R           \* or: number and range of random points
VARIABLES pts, todo, stack, lower, phase
vars == <<pts, todo, stack, lower, phase>>
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Sorted(S) == SetToSortSeq(S, Before)
Grid == (0..(W - 1)) \X (0..(H - 1))
Init == /\ pts \in (SUBSET Grid) \ {{}}
        /\ todo = Sorted(pts) /\ stack = <<>> /\ lower = <<>> /\ phase = "lower"
RInit == pts = {} /\ todo = <<>> /\ stack = <<>> /\ lower = <<>> /\ phase = "draw"
Near(p, d, k) == {Add(p, Times(i, d)) : i \in 0..k}       \* a row of collinear points
Draw == phase = "draw" /\
        \E S \in {TLCEval({RandPt(R) : i \in 1..RandomElement(1..N)})} : \E p \in {RandPt(R)} : \E d \in {RandPt(3)} : \E k \in {RandomElement(0..4)} :
        LET all == S \cup (IF k > 1 THEN Near(p, d, k) ELSE {}) IN
        pts' = all /\ todo' = Sorted(all) /\ phase' = "lower" /\ UNCHANGED <<stack, lower>>
Top == stack[Len(stack)]
Pop == phase \in {"lower", "upper"} /\ todo # <<>> /\ Len(stack) >= 2 /\ Turn(stack[Len(stack) - 1], Top, todo[1]) <= 0
       /\ stack' = Front(stack) /\ UNCHANGED <<pts, todo, lower, phase>>
Push == phase \in {"lower", "upper"} /\ todo # <<>> /\ ~(Len(stack) >= 2 /\ Turn(stack[Len(stack) - 1], Top, todo[1]) <= 0)
        /\ stack' = Append(stack, todo[1]) /\ todo' = Tail(todo) /\ UNCHANGED <<pts, lower, phase>>
Turn2 == phase = "lower" /\ todo = <<>> /\ lower' = stack /\ stack' = <<>> /\ todo' = Reverse(Sorted(pts)) /\ phase' = "upper" /\ UNCHANGED pts
Finish == phase = "upper" /\ todo = <<>> /\ phase' = "done" /\ UNCHANGED <<pts, todo, stack, lower>>
Spec == Init /\ [][Pop \/ Push \/ Turn2 \/ Finish]_vars
RSpec == RInit /\ [][Draw \/ Pop \/ Push \/ Turn2 \/ Finish]_vars
Corners == IF Cardinality(pts) = 1 THEN lower ELSE Front(lower) \o Front(stack)
\* ---- what extreme means
OnSeg(p, a, b) == Turn(a, b, p) = 0 /\ Dot(Sub(a, p), Sub(b, p)) <= 0
InTri(p, a, b, c) == LET x == Turn(a, b, p)  y == Turn(b, c, p)  z == Turn(c, a, p) IN
                     Turn(a, b, c) # 0 /\ ((x >= 0 /\ y >= 0 /\ z >= 0) \/ (x <= 0 /\ y <= 0 /\ z <= 0))
Extreme(p) == LET Q == pts \ {p} IN ~(\E a, b \in Q : OnSeg(p, a, b)) /\ ~(\E a, b, c \in Q : InTri(p, a, b, c))
InvExtreme == (phase = "done" /\ Cardinality(pts) <= 9) => {Corners[i] : i \in 1..Len(Corners)} = {p \in pts : Extreme(p)} /\ IsInjective(Corners)
InvTurns == (phase = "done" /\ Len(Corners) > 2) => \A i \in 1..Len(Corners) : \A p \in pts :
   Turn(Corners[i], Corners[(i % Len(Corners)) + 1], p) >= 0
Emit == phase = "done" => PrintT("@@" \o ToJson([pts |-> Sorted(pts), corners |-> Corners]))
=============================================================================
