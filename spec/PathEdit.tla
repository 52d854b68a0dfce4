------------------------------ MODULE PathEdit ------------------------------
(* Histories of edits on one path and on a subpath of it that is held meanwhile. *)
EXTENDS PathOps, Json
CONSTANTS Depth,      \* operations per history
          Ops         \* names of the operations used

VARIABLES segs, view, init, hist, on
vars == <<segs, view, init, hist, on>>
Op(op, w, i, sl, new) == [op |-> op, w |-> w, i |-> i, sl |-> sl, new |-> new]
NoSl == <<Nil, Nil, Nil>>
Do(o) == LET r == Step([segs |-> segs, view |-> view], o) IN
  /\ segs' = r.segs /\ view' = r.view /\ init' = init /\ on' = on
  /\ hist' = Append(hist, [o |-> o, segs |-> r.segs, view |-> r.view, res |-> r.res, sel |-> r.sel, m |-> Marks(r.segs)])

(* ---- random histories -------------------------------------------------------------------- *)
Idx(n) == RandomElement(-(n + 2)..(n + 2))
RandSlice(n) == <<RandomElement((-(n + 1)..(n + 1)) \cup {Nil}), RandomElement((-(n + 1)..(n + 1)) \cup {Nil}),
                  RandomElement({Nil, Nil, 1, 1, 2, -1, -2, 3})>>
\* Segments that a text can stand for: the first start is open.
TextSegs(n) == LET t == [i \in 1..n |-> RandSeg(<<"M", "L", "Q", "C">>[RandomElement(1..4)], 0)]
               IN TLCEval([t EXCEPT ![1].s = None])
\* An operation of the given name; the second component tells whether it applies now.
RandOp(name, w) ==
  LET n == IF w THEN view[2] - view[1] + 1 ELSE Len(segs) IN
  CASE name \in {"append", "insert"} -> Op(name, FALSE, Idx(n), NoSl, RandSegs(1, 1))
    [] name = "set" -> Op(name, w, Idx(n), NoSl, RandSegs(1, 1))
    [] name = "extend" -> Op(name, FALSE, 0, NoSl, RandSegs(0, 3))
    [] name = "iadd" -> Op(name, w, 0, NoSl, RandSegs(0, 3))
    [] name \in {"tappend", "tinsert"} -> Op(name, FALSE, Idx(n), NoSl, TextSegs(RandomElement(1..3)))
    [] name \in {"del", "get"} -> Op(name, w, Idx(n), NoSl, <<>>)
    [] name \in {"pop"} -> Op(name, FALSE, Idx(n), NoSl, <<>>)
    [] name \in {"delsl", "getsl"} -> Op(name, w, 0, RandSlice(n), <<>>)
    [] name = "setsl" -> Op(name, w, 0, RandSlice(n), RandSegs(0, 2))
    [] name \in {"clear", "direct"} -> Op(name, FALSE, 0, NoSl, <<>>)
    [] name = "transform" -> Op(name, w, RandomElement(1..Len(Mats)), NoSl, <<>>)
    [] name = "segmap" -> Op(name, FALSE, RandomElement(1..Max2(1, n)), <<RandomElement(1..Len(Mats)), Nil, Nil>>, <<>>)
    [] name = "reverse" -> Op(name, w, 0, NoSl, <<>>)
    [] name = "open" -> Op(name, FALSE, RandomElement(1..Max2(1, Len(Runs(segs)))), NoSl, <<>>)
    [] OTHER -> Op("measure", FALSE, RandomElement(0..5), NoSl, <<>>)
Viewing == {"iadd", "set", "del", "get", "delsl", "getsl", "setsl", "transform", "reverse"}
Applies(o) ==
  /\ o.w => view # <<>>
  /\ o.op = "reverse" => IF o.w THEN Regular(SubSeq(segs, view[1], view[2])) ELSE AllRegular(segs)
  /\ o.op = "open" => segs # <<>>
  /\ o.op = "segmap" => o.i <= Len(segs)
  /\ o.op \in {"transform", "segmap"} =>
       \A i \in 1..Len(segs) : segs[i].e # None => Max2(segs[i].e[1], -segs[i].e[1]) + Max2(segs[i].e[2], -segs[i].e[2]) < 100000
  /\ o.op \in {"append", "insert", "extend", "iadd", "tappend", "tinsert"} => Len(segs) < 12
Small(o) == IF Applies(o) THEN o ELSE Op("measure", FALSE, 0, NoSl, <<>>)
\* The first step draws the path: a simulation computes its initial states only once.
RInit == on = FALSE /\ view = <<>> /\ hist = <<>> /\ segs = <<>> /\ init = <<>>
RNext == \/ /\ ~on /\ on' = TRUE /\ segs' \in {RandInit} /\ init' = segs' /\ UNCHANGED <<view, hist>>
         \/ /\ on /\ Len(hist) < Depth
            /\ \E name \in {RandomElement(Ops)} :
                 \E w \in {(name \in Viewing /\ view # <<>> /\ RandomElement(1..5) > 1)} :
                   \E o \in {RandOp(name, w)} : Do(Small(o))
RSpec == RInit /\ [][RNext]_vars

(* ---- every short history over a few segments ----------------------------------------------- *)
Pool == { Seg("M", None, <<>>, <<10, 20>>, <<>>), Seg("L", <<1, 1>>, <<>>, <<11, 21>>, <<>>),
          Seg("Z", None, <<>>, None, <<>>), Seg("C", None, <<<<12, 5>>, <<5, 12>>>>, <<13, 23>>, <<>>) }
Subs == { <<>>, <<Seg("L", None, <<>>, <<31, 41>>, <<>>), Seg("M", <<2, 2>>, <<>>, <<32, 42>>, <<>>)>> }
Starting ==
  { <<>>,
    << Seg("M", None, <<>>, <<0, 0>>, <<>>), Seg("L", None, <<>>, <<4, 0>>, <<>>), Seg("Q", None, <<<<6, 1>>>>, <<4, 4>>, <<>>),
       Seg("Z", None, <<>>, None, <<>>), Seg("M", None, <<>>, <<7, 7>>, <<>>), Seg("L", None, <<>>, <<8, 9>>, <<>>) >>,
    << Seg("L", None, <<>>, <<1, 0>>, <<>>), Seg("Z", None, <<>>, None, <<>>),
       Seg("A", <<1, 0>>, <<>>, <<3, 2>>, <<<<1, 2>>, <<2, 0>>, <<0, 2>>, 1>>) >>,
    << Seg("M", None, <<>>, None, <<>>), Seg("L", <<1, 1>>, <<>>, None, <<>>), Seg("Z", <<3, 3>>, <<>>, None, <<>>) >> }
\* At the last step, every operation; before it, the index range is cut down.
Far == Len(hist) = Depth - 1
IdxSet(n) == IF Far THEN -(n + 1)..(n + 1) ELSE {-1, 0, n}
SliceSet(n) == IF Far THEN {<<a, b, c>> : a \in {Nil, -1, 1}, b \in {Nil, 0, 3, -1}, c \in {Nil, 2, -1}}
               ELSE {<<1, 3, Nil>>, <<Nil, Nil, 2>>}
AllOps(w) ==
  LET n == IF w THEN view[2] - view[1] + 1 ELSE Len(segs) IN
  {Op("set", w, i, NoSl, <<g>>) : i \in IdxSet(n), g \in Pool}
  \cup {Op(x, w, i, NoSl, <<>>) : x \in {"del", "get"}, i \in IdxSet(n)}
  \cup {Op(x, w, 0, sl, <<>>) : x \in {"delsl", "getsl"}, sl \in SliceSet(n)}
  \cup {Op("iadd", w, 0, NoSl, new) : new \in Subs}
  \cup {Op("setsl", w, 0, sl, new) : sl \in SliceSet(n), new \in Subs}
  \cup {Op("transform", w, i, NoSl, <<>>) : i \in {1, 2, 3}}
  \cup {Op("reverse", w, 0, NoSl, <<>>)}
  \cup (IF w THEN {} ELSE
        {Op("append", w, 0, NoSl, <<g>>) : g \in Pool}
        \cup {Op("insert", w, i, NoSl, <<g>>) : i \in IdxSet(n), g \in Pool}
        \cup {Op("open", w, i, NoSl, <<>>) : i \in 1..Len(Runs(segs))})
SInit == /\ on = TRUE /\ view = <<>> /\ hist = <<>> /\ segs \in {Repair(x) : x \in Starting} /\ init = segs
SNext == /\ Len(hist) < Depth
         /\ \E w \in (IF view = <<>> THEN {FALSE} ELSE {TRUE, FALSE}) : \E o \in {x \in AllOps(w) : x.op \in Ops} :
              Applies(o) /\ Do(o)
SSpec == SInit /\ [][SNext]_vars

(* ------------------------------ invariants ------------------------------------------------- *)
InvJoined == Joined(segs)
InvClosed == Closed(segs)
InvView   == view = <<>> \/ (view[1] >= 1 /\ view[2] <= Len(segs) /\ view[2] >= view[1] - 1)
\* A closepath made direct draws nothing, and what is drawn stays.
InvDirect == LET d == Direct(segs) IN
  /\ Joined(d) /\ Closed(d)
  /\ \A i \in 1..Len(d) : d[i].k = "Z" /\ d[i].s # None /\ d[i].e # None => d[i].s = d[i].e
  /\ Direct(d) = d
  /\ SelectSeq(d, LAMBDA g : g.k \notin {"L", "Z"}) = SelectSeq(segs, LAMBDA g : g.k \notin {"L", "Z"})
\* Continuing from the reference points needs no repair.
InvMarks == LET m == Marks(segs) IN
  /\ m[2] # None => Repair(Append(segs, Seg("L", m[2], <<>>, <<1, 1>>, <<>>))) = Append(segs, Seg("L", m[2], <<>>, <<1, 1>>, <<>>))
  /\ (Whole(segs) /\ segs # <<>>) => Repair(Append(segs, Seg("Z", m[2], <<>>, m[3], <<>>))) = Append(segs, Seg("Z", m[2], <<>>, m[3], <<>>))
InvStable == Repair(segs) = segs
InvRuns   == LET r == Runs(segs) IN
             /\ FlattenSeq([i \in 1..Len(r) |-> SubSeq(segs, r[i][1], r[i][2])]) = segs
             /\ \A i \in 2..Len(r) : segs[r[i][1]].k = "M"
\* What an edit does not address keeps everything but its connection.
Body(g) == <<g.k, g.c, g.a, IF g.k = "Z" THEN None ELSE g.e>>
InvReverse == AllRegular(segs) =>
  LET b == RevPath(segs)  rs == Runs(segs)  bs == Runs(b)
      openOnly == \A i \in 1..Len(segs) : segs[i].k # "Z" IN
  /\ Joined(b) /\ Closed(b) /\ Len(b) = Len(segs) /\ Len(rs) = Len(bs)
  /\ openOnly => RevPath(b) = segs
  \* closed or not, reversing thrice is reversing once
  /\ RevPath(RevPath(b)) = b
Backwards == [i \in 1..Len(segs) |-> IF segs[i].s = None \/ segs[i].e = None THEN Seg("?", None, <<>>, None, <<>>)
                                     ELSE RevSeg(segs[i])]
Emit == Len(hist) # Depth \/ PrintT("@@" \o ToJson([init |-> init, hist |-> hist, runs |-> Runs(segs), rev |-> Backwards,
                                                  m |-> Marks(init), pts |-> IF Whole(segs) THEN Defining(segs) ELSE <<>>]))
=============================================================================
