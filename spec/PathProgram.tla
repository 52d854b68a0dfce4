---------------------------- MODULE PathProgram ----------------------------
(* Programs of path commands, one command per step.  Two uses: exhaustively over all command
   letters with arguments that are a fixed function of the position (Next), and by random
   simulation with random arguments and repetition (RNext).  Every reached program is printed
   together with the segments the rules give; the driver runs it through the implementation. *)
EXTENDS PathData, TLC, Json
CONSTANTS Depth,      \* commands after the initial moveto
          EmitAt,     \* smallest program length that is printed
          Variants    \* set of argument patterns used by the exhaustive search
VARIABLES prog, segs
vars == <<prog, segs>>

Letters == {"M","m","L","l","H","h","V","v","C","c","S","s","Q","q","T","t","A","a","Z","z"}
Code(c) == CHOOSE i \in 1..20 : c = <<"M","m","L","l","H","h","V","v","C","c","S","s","Q","q","T","t","A","a","Z","z">>[i]

\* Fixed, position dependent arguments.
Num(v, i, j, c) == ((i * i * 7 + j * 5 + j * j * 3 + Code(c) * 11 + v * 17) % 15) - 6
Radius(v, i, j) == 4 + ((i * 5 + j * 3 + v * 7) % 30)
ArcNums(v, i, c) ==
  LET b == i + v + Code(c) IN
  <<Radius(v, i, 1), Radius(v, i, 2), <<0, 90, 180, -90>>[(b % 4) + 1],
    (b \div 2) % 2, b % 2, Num(v, i, 6, c), Num(v, i, 7, c)>>
Args(v, i, c, groups) ==
  LET a == Arity(Upper(c)) IN
  IF Upper(c) = "A"
  THEN FlattenSeq([g \in 1..groups |-> ArcNums(v, i + g, c)])
  ELSE [j \in 1..(a * groups) |-> Num(v, i, j, c)]

Init == /\ prog = <<[c |-> "M", n |-> <<3, -2>>, z |-> FALSE]>>
        /\ segs = Interp(prog)

Do(cmd) == /\ prog' = Append(prog, cmd)
           /\ segs' = Command(segs, cmd)

Next == /\ Len(prog) <= Depth
        /\ \E c \in Letters, v \in Variants :
             Do([c |-> c, n |-> Args(v, Len(prog), c, 1 + ((Len(prog) + Code(c) + v) % 2)), z |-> FALSE])

\* ---- random programs
R(lo, hi) == RandomElement(lo..hi)
RandArc(k) == <<R(0, 40) - (IF R(1, 8) = 1 THEN 20 ELSE 0), R(0, 40), 90 * R(-2, 3), R(0, 1), R(0, 1), R(-20, 20), R(-20, 20)>>
RandCircle(k) == LET q == R(1, 40) IN <<q, q, 15 * R(-12, 12), R(0, 1), R(0, 1), R(-20, 20), R(-20, 20)>>
RandGroup(c, g) ==
  IF Upper(c) = "A" THEN (IF R(0, 1) = 1 THEN RandArc(g) ELSE RandCircle(g))
  ELSE [j \in 1..Arity(Upper(c)) |-> R(-20, 20)]
RandArgs(c, groups) == FlattenSeq([g \in 1..groups |-> RandGroup(c, g)])
CanCut(c) == Upper(c) \in {"L", "T", "Q", "S", "C", "A"}
Cut(c, n) == SubSeq(n, 1, Len(n) - 2)
RNext ==
  /\ Len(prog) <= Depth
  /\ \E c \in {RandomElement(Letters)}, groups \in {RandomElement({1, 2, 3, 11, 12, 13, 14})}, cut \in {R(1, 8) = 1} :
     \E n \in {RandArgs(c, IF groups > 3 THEN 1 ELSE groups)}, k \in {RandomElement({"z", "Z"})} :
       IF cut /\ CanCut(c) /\ ~(Upper(c) \in {"L", "T"} /\ groups \in {2, 3})
       THEN LET one == [c |-> c, n |-> Cut(c, n), z |-> TRUE]
                two == [c |-> k, n |-> <<>>, z |-> FALSE] IN
            /\ prog' = prog \o <<one, two>>
            /\ segs' = Command(Command(segs, one), two)
       ELSE Do([c |-> c, n |-> n, z |-> FALSE])

\* ---- what must hold of the rules themselves
InvConnected == Connected(segs)
InvCloses    == ClosesReturn(segs)
InvShape     == KindShape(segs)
\* Incremental drawing and interpretation of the whole program agree.
InvWhole     == segs = Interp(prog)
\* Rewriting every primitive in absolute coordinates draws the same.
AllPrims == FlattenSeq([i \in 1..Len(prog) |-> Prims(prog[i])])
RECURSIVE AbsRun(_, _, _)
AbsRun(acc, ps, i) == IF i > Len(ps) THEN acc
                      ELSE AbsRun(Prim(acc, ToAbs(acc, ps[i])), ps, i + 1)
InvAbsolute  == Geo(AbsRun(<<>>, AllPrims, 1)) = Geo(segs)
Emit == Len(prog) < EmitAt \/ PrintT("@@" \o ToJson([p |-> prog, s |-> WithClass(segs)]))

Spec  == Init /\ [][Next]_vars
RSpec == Init /\ [][RNext]_vars
=============================================================================
