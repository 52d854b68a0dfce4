------------------------------- MODULE SegMake -------------------------------
(* P14.  How segments and paths are given, and what they then hold.
   A segment is constructed with the first pos of its slots in order and the slots kw by name; gap of
   them are given as missing.  A path is constructed from segments, a list or tuple of them, one
   segment, text, a path or a subpath.                                                             *)
EXTENDS PathOps, Json
CONSTANTS Draws
VARIABLES q, g, raw, items
vars == <<q, g, raw, items>>

(* ------------------------------ one segment ------------------------------------------------ *)
Slots(k) == CASE k \in {"M", "L", "Z"} -> <<"start", "end">>
              [] k = "Q" -> <<"start", "control", "end">>
              [] OTHER -> <<"start", "control1", "control2", "end">>
Names(k) == {Slots(k)[i] : i \in 1..Len(Slots(k))}
\* The slots that the first n positions stand for: a moveto given one place goes there.
Placed(k, n, kw) ==
  IF k = "M" /\ n = 1 THEN (IF kw = {"end"} THEN <<"start">> ELSE <<"end">>) ELSE SubSeq(Slots(k), 1, n)
Named(k, n, kw) == {Placed(k, n, kw)[i] : i \in 1..n}
Allowed(f) ==
  /\ f.pos <= Len(Slots(f.k))
  /\ f.kw \cap Named(f.k, f.pos, f.kw) = {}
  /\ f.gap \subseteq f.kw \cup Named(f.k, f.pos, f.kw)
  /\ f.k \in {"Q", "C"} => f.kw \cup Named(f.k, f.pos, f.kw) = Names(f.k)     \* curves take all of theirs
Given == q.kw \cup Named(q.k, q.pos, q.kw)
\* val: a place for each slot; what the segment holds in it
Held(s, val) == IF s \in Given /\ s \notin q.gap THEN val[s] ELSE None
Inner(k) == SubSeq(Slots(k), 2, Len(Slots(k)) - 1)
Made(val) == Seg(q.k, Held("start", val), [i \in 1..Len(Inner(q.k)) |-> Held(Inner(q.k)[i], val)], Held("end", val), <<>>)
Places(g1) == <<g1.s>> \o g1.c \o <<g1.e>>
Known(ps) == SelectSeq(ps, LAMBDA p : p # None)

(* ------------------------------ a path ----------------------------------------------------- *)
Ways == {"items", "list", "tuple", "one", "path", "subpath", "text"}
\* Some of the segments twice.
Twice(segs, i, j) == IF i > Len(segs) \/ j > Len(segs) THEN segs ELSE [segs EXCEPT ![j] = segs[i]]
Written == <<"M", "L", "L", "Z", "Q", "C">>
Holds(how, segs) == IF how \in {"list", "tuple", "text"} THEN Repair(segs) ELSE segs
First(segs, i) == CHOOSE j \in 1..i : segs[j] = segs[i] /\ \A m \in 1..(j - 1) : segs[m] # segs[i]
Often(segs, i) == Cardinality({j \in 1..Len(segs) : segs[j] = segs[i]})
Removed(segs, i) == Repair(Drop(segs, <<First(segs, i) - 1>>))

InitSeg == /\ \E k \in {"M", "L", "Z", "Q", "C"}, rel, smo \in {"unset", "yes", "no"} :
                \E n \in 0..Len(Slots(k)), kw, gap \in SUBSET Names(k), d \in 1..Draws :
                  LET f == [k |-> k, pos |-> n, kw |-> kw, gap |-> gap, rel |-> rel, smo |-> smo, n |-> d] IN Allowed(f) /\ q = f
           /\ \E val \in {TLCEval([s \in Names(q.k) |-> RandPt(s)])} : g = Made(val)
           /\ raw = <<>> /\ items = <<>>
InitPath == /\ q \in [how : Ways, n : 1..(60 * Draws)]
            /\ g = <<>>
            /\ \E a \in {TLCEval(CASE q.how = "one" -> RandSegs(1, 1)
                                   [] q.how = "subpath" -> RandRun(0)
                                   [] q.how = "text" -> FlattenSeq([i \in 1..RandomElement(1..6) |-> <<RandSeg(IF i = 1 THEN "M" ELSE Written[RandomElement(1..6)], 0)>>])
                                   [] OTHER -> RandSegs(0, 6))} :
                 \E i, j \in {RandomElement(1..6)} :
                   raw = CASE q.how = "text" -> [m \in 1..Len(a) |-> [a[m] EXCEPT !.s = None, !.e = IF a[m].k = "Z" THEN None ELSE @]]
                           [] q.how \in {"one", "subpath"} -> a
                           [] OTHER -> Twice(a, i, j)
            /\ items = Holds(q.how, raw)
SpecSeg  == InitSeg /\ [][UNCHANGED vars]_vars
SpecPath == InitPath /\ [][UNCHANGED vars]_vars

\* A place is held if and only if it was given and not as missing.
InvHeld == Cardinality({i \in 1..Len(Places(g)) : Places(g)[i] # None}) = Cardinality(Given \ q.gap)
InvListed == q.how \in {"list", "tuple", "text"} => Joined(items) /\ Closed(items)
InvRemoved == \A i \in 1..Len(items) : Len(Removed(items, i)) = Len(items) - 1
EmitSeg == PrintT("@@" \o ToJson([q |-> q, placed |-> Placed(q.k, q.pos, q.kw), g |-> g, places |-> Places(g), known |-> Known(Places(g))]))
EmitPath == PrintT("@@" \o ToJson([q |-> q, raw |-> raw, segs |-> items, first |-> [i \in 1..Len(items) |-> First(items, i)],
                                   often |-> [i \in 1..Len(items) |-> Often(items, i)],
                                   removed |-> [i \in 1..Len(items) |-> Removed(items, i)]]))
=============================================================================
