--------------------------- MODULE PathTextTrace ---------------------------
(* Judges records of texts given to, or produced by, the implementation.  Every record stands
   alone, so they are spread over chunks that TLC's workers take independently.
     k "read"   t text, o outcome ("ok" or the exception's name), segs observed, d decimals
     k "wide"   t text of absolute straight commands, nums the observed numbers as decimals
     k "write"  t text produced for segs in mode rel ("abs"|"rel"|"asis"), sm smooth ("on"|"off") *)
EXTENDS PathText, Json, IOUtils
Trace  == ndJsonDeserialize(IOEnv.TRACE)
Chunks == 64
VARIABLES ch, i
Init == ch = 0 /\ i = 0
Next == \/ ch = 0 /\ ch' \in 1..Chunks /\ i' = 0
        \/ ch > 0 /\ i = 0 /\ ch' = ch /\ i' \in {n \in 1..Len(Trace) : (n % Chunks) + 1 = ch}
Spec == Init /\ [][Next]_<<ch, i>>

Open(r, d) == r.st = "open" \/ ~TameCmds(r.cmds, d)
Read(x) ==
  LET r == Parse(x.t) IN
  CASE Open(r, x.d) -> TRUE
    [] r.st = "ok"   -> x.o = "ok" /\ Agrees(Drawn(r.cmds, x.d), x.segs, TRUE)
    [] OTHER         -> \/ x.o = "ValueError"
                        \/ x.o = "ok" /\ Agrees(Drawn(r.cmds, x.d), x.segs, TRUE)
Wide(x) ==
  LET r == Parse(x.t) IN
  r.st = "ok" /\ FlattenSeq([j \in 1..Len(r.cmds) |-> r.cmds[j].n]) = x.nums

\* The letter of every written segment follows the mode; shorthands only where allowed.
LetterFits(cmd, seg, x) ==
  /\ CASE x.rel = "abs" -> ~Rel(cmd.c) [] x.rel = "rel" -> Rel(cmd.c) [] OTHER -> Rel(cmd.c) = seg.r
  /\ x.sm = "off" => Upper(cmd.c) \notin {"S", "T"}
\* Radii of arcs that were scaled up to fit need not be integers in these units.
WrittenTame(cmds, k) == \A j \in 1..Len(cmds) : \A m \in 1..Len(cmds[j].n) :
    LET a == Upper(cmds[j].c) = "A" IN
    \/ a /\ m \in {1, 2} /\ cmds[j].n[m][2] \in -9..3 /\ AbsI(cmds[j].n[m][1]) < 1000000
    \/ Tame(cmds[j].n[m], IF a /\ m \in {3, 4, 5} THEN 0 ELSE k)
\* Numbers are written to twelve digits, so what is left of cancelled coordinates, or of a rotation
\* that is none, may show.
Settled(r) == [r EXCEPT !.cmds = [j \in 1..Len(r.cmds) |->
    [r.cmds[j] EXCEPT !.n = [m \in 1..Len(r.cmds[j].n) |-> Settle(r.cmds[j].n[m])]]]]
Write(x) ==
  LET r == Settled(Parse(x.t)) IN
  /\ r.st = "ok"
  /\ WrittenTame(r.cmds, x.d)
  /\ Len(r.cmds) = Len(x.segs)
  /\ \A j \in 1..Len(r.cmds) : LetterFits(r.cmds[j], x.segs[j], x)
  /\ Agrees(Drawn(r.cmds, x.d), x.segs, FALSE)
Holds(x) == CASE x.k = "read" -> Read(x) [] x.k = "wide" -> Wide(x)
              [] x.k = "write" -> Write(x) [] OTHER -> FALSE
Judge == i = 0 \/ Holds(Trace[i]) \/ PrintT("@@" \o ToJson([i |-> i]))
\* How many records were decided, by what the text turned out to be.
Status == i = 0 \/ Trace[i].k # "read" \/ PrintT("@@" \o ToJson([st |-> LET r == Parse(Trace[i].t) IN IF Open(r, Trace[i].d) THEN "open" ELSE r.st]))
=============================================================================
