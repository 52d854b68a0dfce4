------------------------------ MODULE PathData ------------------------------
(* The SVG path rules as a state machine over the list of segments drawn so far.
   Points are <<x, y>> of integers (any fixed scale), the missing point is <<>>.
   A segment is a record
     k  kind: "M" move, "L" line, "Z" close, "Q" quadratic, "C" cubic, "A" arc
     r  recorded as relative     h  recorded as smooth shorthand
     s  start, c  sequence of control points, e  end
     a  arc data <<rx, ry, rotation in degrees, large, sweep>> or <<>>
   Current point, subpath start and previous control point are functions of that list:
   they are the whole state of the path rules.                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

None == <<>>
Add(p, q) == <<p[1] + q[1], p[2] + q[2]>>
Reflect(c, p) == <<2 * p[1] - c[1], 2 * p[2] - c[2]>>
AbsI(n) == IF n < 0 THEN -n ELSE n

Cur(segs) == IF segs = <<>> THEN None ELSE segs[Len(segs)].e

RECURSIVE LastMove(_, _)
LastMove(segs, i) == IF i = 0 THEN 0
                     ELSE IF segs[i].k = "M" THEN i ELSE LastMove(segs, i - 1)
\* End of the last moveto, without one the end of the first segment.
ZPoint(segs) == LET i == LastMove(segs, Len(segs)) IN
                IF i > 0 THEN segs[i].e
                ELSE IF segs = <<>> THEN None ELSE segs[1].e

Seg(k, r, h, s, c, e, a) == [k |-> k, r |-> r, h |-> h, s |-> s, c |-> c, e |-> e, a |-> a]

\* First control point of a smooth curve of kind k.
SmoothControl(segs, k) ==
  LET last == segs[Len(segs)] IN
  IF segs # <<>> /\ last.k = k THEN Reflect(last.c[Len(last.c)], last.e) ELSE Cur(segs)

(* --------------------------- one drawing operation --------------------------------------
   A primitive is [c |-> command letter, n |-> numbers of one argument group,
   z |-> TRUE when a closepath stands in for the last coordinate pair].                     *)
Rel(c)   == c \in {"m","z","l","h","v","c","s","q","t","a"}
Upper(c) == CASE c = "m" -> "M" [] c = "z" -> "Z" [] c = "l" -> "L" [] c = "h" -> "H"
              [] c = "v" -> "V" [] c = "c" -> "C" [] c = "s" -> "S" [] c = "q" -> "Q"
              [] c = "t" -> "T" [] c = "a" -> "A" [] OTHER -> c
Arity(u) == CASE u \in {"M","L","T"} -> 2 [] u \in {"H","V"} -> 1 [] u = "C" -> 6
              [] u \in {"S","Q"} -> 4 [] u = "A" -> 7 [] OTHER -> 0

Prim(segs, p) ==
  LET u   == Upper(p.c)
      r   == Rel(p.c)
      cur == Cur(segs)
      P(i) == IF r /\ cur # None THEN <<cur[1] + p.n[i], cur[2] + p.n[i+1]>>
              ELSE <<p.n[i], p.n[i+1]>>
      E(i) == IF p.z THEN ZPoint(segs) ELSE P(i)
      new == CASE u = "M" -> Seg("M", r, FALSE, cur, <<>>, P(1), <<>>)
               [] u = "L" -> Seg("L", r, FALSE, cur, <<>>, E(1), <<>>)
               [] u = "H" -> Seg("L", r, FALSE, cur, <<>>,
                                 <<IF r THEN cur[1] + p.n[1] ELSE p.n[1], cur[2]>>, <<>>)
               [] u = "V" -> Seg("L", r, FALSE, cur, <<>>,
                                 <<cur[1], IF r THEN cur[2] + p.n[1] ELSE p.n[1]>>, <<>>)
               [] u = "Q" -> Seg("Q", r, FALSE, cur, <<P(1)>>, E(3), <<>>)
               [] u = "T" -> Seg("Q", r, TRUE, cur, <<SmoothControl(segs, "Q")>>, E(1), <<>>)
               [] u = "C" -> Seg("C", r, FALSE, cur, <<P(1), P(3)>>, E(5), <<>>)
               [] u = "S" -> Seg("C", r, TRUE, cur, <<SmoothControl(segs, "C"), P(1)>>, E(3), <<>>)
               [] u = "A" -> Seg("A", r, FALSE, cur, <<>>, E(6),
                                 <<AbsI(p.n[1]), AbsI(p.n[2]), p.n[3], p.n[4] # 0, p.n[5] # 0>>)
               [] u = "Z" -> Seg("Z", r, FALSE, cur, <<>>, ZPoint(segs), <<>>)
  IN Append(segs, new)

Run(segs, prims) == FoldLeft(Prim, segs, prims)

(* ------------------------------ commands ------------------------------------------------
   A command is [c |-> letter, n |-> all its numbers, z |-> BOOLEAN].                       *)
\* Argument groups beyond the first repeat the command; a moveto continues as lineto.
Continue(c) == CASE c = "M" -> "L" [] c = "m" -> "l" [] OTHER -> c
RECURSIVE Groups(_, _, _)
Groups(c, n, z) ==
  LET a == Arity(Upper(c)) IN
  IF a = 0 THEN <<[c |-> c, n |-> <<>>, z |-> FALSE]>>
  ELSE IF Len(n) < a THEN <<[c |-> c, n |-> n, z |-> z]>>
  ELSE IF Len(n) = a /\ ~z THEN <<[c |-> c, n |-> n, z |-> FALSE]>>
  ELSE <<[c |-> c, n |-> SubSeq(n, 1, a), z |-> FALSE]>>
       \o Groups(Continue(c), SubSeq(n, a + 1, Len(n)), z)
Prims(cmd) == Groups(cmd.c, cmd.n, cmd.z)
Command(segs, cmd) == Run(segs, Prims(cmd))
Interp(cmds) == FoldLeft(Command, <<>>, cmds)

(* ------------------------------ invariants ---------------------------------------------- *)
Connected(segs) == \A i \in 2..Len(segs) : segs[i].s = segs[i-1].e
ClosesReturn(segs) == \A i \in 1..Len(segs) :
    segs[i].k = "Z" => segs[i].e = ZPoint(SubSeq(segs, 1, i - 1))
KindShape(segs) == \A i \in 1..Len(segs) :
    /\ Len(segs[i].c) = (CASE segs[i].k = "Q" -> 1 [] segs[i].k = "C" -> 2 [] OTHER -> 0)
    /\ (segs[i].k = "A") <=> (segs[i].a # <<>>)
\* The geometry without the recorded spelling.
Geo(segs) == [i \in 1..Len(segs) |->
    [k |-> segs[i].k, s |-> segs[i].s, c |-> segs[i].c, e |-> segs[i].e, a |-> segs[i].a]]

\* A primitive rewritten in absolute coordinates, without the H and V shorthands.
ToAbs(segs, p) ==
  LET u == Upper(p.c)  cur == Cur(segs)  r == Rel(p.c) /\ cur # None
      D(i) == IF r THEN (IF i % 2 = 1 THEN cur[1] ELSE cur[2]) ELSE 0 IN
  CASE u = "H" -> [c |-> "L", n |-> <<p.n[1] + D(1), cur[2]>>, z |-> FALSE]
    [] u = "V" -> [c |-> "L", n |-> <<cur[1], p.n[1] + D(2)>>, z |-> FALSE]
    [] u = "A" -> [c |-> "A", z |-> p.z,
                   n |-> [i \in 1..Len(p.n) |-> IF i <= 5 THEN p.n[i] ELSE p.n[i] + D(i - 5)]]
    [] OTHER   -> [c |-> u, z |-> p.z, n |-> [i \in 1..Len(p.n) |-> p.n[i] + D(i)]]

(* How an arc's data constrains what is drawn: "dot" equal ends, "line" a zero radius,
   "full" radii strictly larger than needed (flags and radii are observable), "fit" radii
   scaled up or just fitting (only the direction is), "open" not decided here.             *)
ArcClass(g) ==
  LET dx == g.e[1] - g.s[1]  dy == g.e[2] - g.s[2]
      rx == g.a[1]  ry == g.a[2]  q == ((g.a[3] % 180) + 180) % 180
      ax == IF q = 90 THEN ry ELSE rx
      ay == IF q = 90 THEN rx ELSE ry
      need == dx * dx * ay * ay + dy * dy * ax * ax
      have == 4 * ax * ax * ay * ay IN
  CASE g.s = g.e -> "dot"
    [] rx = 0 \/ ry = 0 -> "line"
    [] rx # ry /\ q \notin {0, 90} -> "open"
    [] need < have -> "full"
    [] OTHER -> "fit"
WithClass(segs) == [i \in 1..Len(segs) |->
    IF segs[i].k = "A" /\ segs[i].s # None
    THEN [segs[i] EXCEPT !.a = Append(@, ArcClass(segs[i]))] ELSE segs[i]]
=============================================================================
