------------------------------- MODULE SegText -------------------------------
(* P11.  The command that writes a single segment: absolute or relative to a given point, in full
   or with its smooth shorthand.  Arcs are <<letter, radii, rotation 0, flags, end>>.            *)
EXTENDS PathOps, Json
CONSTANTS Draws       \* segments drawn for each combination
VARIABLES q, g, cur
vars == <<q, g, cur>>
Yes == {"none", "true", "false"}
Combos == [k : {"M", "L", "Z", "Q", "C", "A"}, rel : BOOLEAN, smo : BOOLEAN, ask : Yes, asks : Yes, at : BOOLEAN, n : 1..Draws]
Init == /\ q \in Combos
        /\ \E p \in {IF q.at THEN RandPt(q.n) ELSE None} : cur = p
        /\ \E x \in {TLCEval(RandSeg(q.k, 0))} :
             \E s \in {IF q.k = "A" \/ RandomElement(1..4) > 1 THEN RandPt(1) ELSE None} :
               \E e \in {IF q.k = "Z" /\ RandomElement(1..2) = 1 THEN None ELSE RandPt(2)} :
                 g = FitArc([x EXCEPT !.s = s, !.e = e])
Spec == Init /\ [][UNCHANGED vars]_vars
Choice(ask, recorded) == CASE ask = "none" -> recorded [] ask = "true" -> TRUE [] OTHER -> FALSE
Relative == cur # None /\ Choice(q.ask, q.rel)
Smooth == q.k \in {"Q", "C"} /\ Choice(q.asks, q.smo)
Letter == CASE q.k = "Q" /\ Smooth -> "T" [] q.k = "C" /\ Smooth -> "S" [] OTHER -> q.k
Small(c) == CASE c = "M" -> "m" [] c = "L" -> "l" [] c = "Z" -> "z" [] c = "Q" -> "q" [] c = "C" -> "c"
              [] c = "A" -> "a" [] c = "T" -> "t" [] OTHER -> "s"
Off(p) == IF Relative THEN <<p[1] - cur[1], p[2] - cur[2]>> ELSE p
Points == (CASE q.k = "Z" -> <<>>
             [] Smooth -> Tail(g.c) \o <<g.e>>
             [] OTHER -> g.c \o <<g.e>>)
Abs2(n) == IF n < 0 THEN -n ELSE n
Shape == IF q.k # "A" THEN <<>> ELSE <<g.a[2][1], g.a[3][2], 0, IF Abs2(g.a[4]) > 2 THEN 1 ELSE 0, IF g.a[4] > 0 THEN 1 ELSE 0>>
Command == [c |-> IF Relative THEN Small(Letter) ELSE Letter, shape |-> Shape, p |-> [i \in 1..Len(Points) |-> Off(Points[i])]]
\* In front of its command in full, a moveto to the start.
Alone == [move |-> g.s, c |-> q.k, shape |-> Shape, p |-> IF q.k = "Z" THEN <<>> ELSE g.c \o <<g.e>>]
\* Reading the command from the given point gives the points back.
InvReads == LET c == Command IN
  \A i \in 1..Len(c.p) : (IF c.c = Small(Letter) THEN <<c.p[i][1] + cur[1], c.p[i][2] + cur[2]>> ELSE c.p[i]) = Points[i]
Emit == PrintT("@@" \o ToJson([q |-> q, g |-> g, cur |-> cur, cmd |-> Command, alone |-> Alone]))
=============================================================================
