------------------------------ MODULE PathOps ------------------------------
(* A path as an edited list of segments that keeps itself connected, and its subpaths as windows
   on that list.  Segments are [k, s, c, e, a] over integer points, the missing point is <<>>;
   a is <<center, u, v, sweep>> for arcs (axis vectors u, v; sweep in quarter turns), else <<>>.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Inits       \* "partial": any segments, missing points too; "whole": path data like subpaths
None == <<>>
Nil  == 99            \* an omitted slice bound
Seg(k, s, c, e, a) == [k |-> k, s |-> s, c |-> c, e |-> e, a |-> a]

(* ------------------------------ connections ---------------------------------------------- *)
RECURSIVE LastMove(_, _)
LastMove(segs, i) == IF i <= 1 THEN 1 ELSE IF segs[i].k = "M" THEN i ELSE LastMove(segs, i - 1)
\* Joins segment i to its predecessor, then a closepath to its subpath.
Join(segs, i) ==
  LET p == segs[i-1].e  q == segs[i].s
      a == IF i = 1 THEN segs
           ELSE IF p = None /\ q # None THEN [segs EXCEPT ![i-1].e = q]
           ELSE [segs EXCEPT ![i].s = p]
      z == a[LastMove(a, i)].e
  IN IF a[i].k = "Z" /\ z # None THEN [a EXCEPT ![i].e = z] ELSE a
Repair(segs) == FoldLeft(LAMBDA acc, i : Join(acc, i), segs, [i \in 1..Len(segs) |-> i])

Joined(segs) == \A i \in 2..Len(segs) : segs[i].s = segs[i-1].e
Closed(segs) == \A i \in 1..Len(segs) :
    segs[i].k = "Z" => LET z == segs[LastMove(segs, i)].e IN z = None \/ segs[i].e = z
Whole(segs) == \A i \in 1..Len(segs) : segs[i].e # None /\ (i = 1 \/ segs[i].s # None)

(* ------------------------------ lists ------------------------------------------------------ *)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Slice(sl, n) ==   \* <<start, stop, step>> as indices of a list of n
  LET st == IF sl[3] = Nil THEN 1 ELSE sl[3]
      lower == IF st > 0 THEN 0 ELSE -1
      upper == IF st > 0 THEN n ELSE n - 1
      Bound(x, d) == IF x = Nil THEN d ELSE IF x < 0 THEN Max2(x + n, lower) ELSE Min2(x, upper)
  IN <<Bound(sl[1], IF st > 0 THEN lower ELSE upper), Bound(sl[2], IF st > 0 THEN upper ELSE lower), st>>
RECURSIVE Steps(_, _, _)
Steps(a, b, st) == IF (st > 0 /\ a >= b) \/ (st < 0 /\ a <= b) THEN <<>> ELSE <<a>> \o Steps(a + st, b, st)
Selected(sl, n) == LET x == Slice(sl, n) IN Steps(x[1], x[2], x[3])
Without(items, idx) == LET S == {idx[j] + 1 : j \in 1..Len(idx)} IN
    SelectSeq([i \in 1..Len(items) |-> <<i, items[i]>>], LAMBDA x : x[1] \notin S)
Drop(items, idx) == LET w == Without(items, idx) IN [i \in 1..Len(w) |-> w[i][2]]
Fine(items) == [st |-> "ok", items |-> items]
Bad(e, items) == [st |-> e, items |-> items]

\* The list operations: o is [op, i, sl, new].
Edit(items, o) ==
  LET n == Len(items)
      j == IF o.i < 0 THEN o.i + n ELSE o.i
      ok == j >= 0 /\ j < n
      x == Slice(o.sl, n)
      idx == Selected(o.sl, n)
      at == Max2(0, Min2(j, n)) IN
  \* (tappend and tinsert take a text, which may stand for several segments)
  CASE o.op \in {"append", "extend", "iadd", "tappend"} -> Fine(items \o o.new)
    [] o.op \in {"insert", "tinsert"} -> Fine(SubSeq(items, 1, at) \o o.new \o SubSeq(items, at + 1, n))
    [] o.op = "set" -> IF ok THEN Fine([items EXCEPT ![j + 1] = o.new[1]]) ELSE Bad("IndexError", items)
    [] o.op \in {"del", "pop"} ->
         IF ok THEN Fine(Drop(items, <<j>>)) ELSE Bad("IndexError", items)
    [] o.op = "get" -> IF ok THEN Fine(items) ELSE Bad("IndexError", items)
    [] o.op = "getsl" -> Fine(items)
    [] o.op = "setsl" ->
         IF x[3] = 1 THEN Fine(SubSeq(items, 1, x[1]) \o o.new \o SubSeq(items, Max2(x[1], x[2]) + 1, n))
         ELSE IF Len(idx) # Len(o.new) THEN Bad("ValueError", items)
         ELSE Fine([k \in 1..n |-> IF \E m \in 1..Len(idx) : idx[m] = k - 1
                                   THEN o.new[CHOOSE m \in 1..Len(idx) : idx[m] = k - 1] ELSE items[k]])
    [] o.op = "delsl" -> Fine(Drop(items, idx))
    [] o.op = "clear" -> Fine(<<>>)

(* ------------------------------ geometry --------------------------------------------------- *)
Mats == << <<1,0,0,1,3,-1>>, <<0,1,-1,0,0,0>>, <<-1,0,0,1,0,0>>, <<2,0,0,2,0,0>>,
           <<0,1,1,0,5,2>>, <<1,0,0,1,0,0>>, <<1,0,0,-2,-4,0>>,
           <<1,0,1,1,-2,0>>, <<1,2,0,-1,0,3>> >>
Lin(m, p) == <<m[1] * p[1] + m[3] * p[2], m[2] * p[1] + m[4] * p[2]>>
Img(m, p) == IF p = None THEN None ELSE <<m[1] * p[1] + m[3] * p[2] + m[5], m[2] * p[1] + m[4] * p[2] + m[6]>>
Det(m) == m[1] * m[4] - m[2] * m[3]
MapSeg(m, g) == [g EXCEPT !.s = Img(m, g.s), !.e = Img(m, g.e),
    !.c = [i \in 1..Len(g.c) |-> Img(m, g.c[i])],
    !.a = IF g.a = <<>> THEN <<>>
          ELSE <<Img(m, g.a[1]), Lin(m, g.a[2]), Lin(m, g.a[3]), IF Det(m) < 0 THEN -g.a[4] ELSE g.a[4]>>]
MapAll(m, segs) == [i \in 1..Len(segs) |-> MapSeg(m, segs[i])]

RevSeg(g) == [g EXCEPT !.s = g.e, !.e = g.s, !.c = Reverse(@),
    !.a = IF g.a = <<>> THEN <<>> ELSE <<g.a[1], g.a[2], g.a[3], -g.a[4]>>]
\* Runs of a path, as <<first, last>>.
Starts(segs) == {1} \cup {i \in 1..Len(segs) : segs[i].k = "M"}
Runs(segs) == IF segs = <<>> THEN <<>>
  ELSE LET s == SetToSortSeq(Starts(segs), <) IN
       [i \in 1..Len(s) |-> <<s[i], IF i = Len(s) THEN Len(segs) ELSE s[i + 1] - 1>>]
\* A run that reversal is defined for: a moveto, drawn segments, at most a last closepath.
Regular(run) == /\ run # <<>> /\ run[1].k = "M" /\ Whole(run)
                /\ \A i \in 2..Len(run) : run[i].k # "M" /\ (run[i].k = "Z" => i = Len(run))
\* The run backwards, in its place.
RevRun(run) ==
  LET n == Len(run)
      z == run[n].k = "Z"
      body == SubSeq(run, 2, IF z THEN n - 1 ELSE n)
      back == Reverse([i \in 1..Len(body) |-> RevSeg(body[i])])
      from == IF body = <<>> THEN run[1].e ELSE back[1].s
      move == [run[1] EXCEPT !.e = from]
      last == IF body = <<>> THEN from ELSE back[Len(back)].e
  IN <<move>> \o back \o (IF z THEN <<[run[n] EXCEPT !.s = last, !.e = from]>> ELSE <<>>)
AllRegular(segs) == segs # <<>> /\ \A i \in 1..Len(Runs(segs)) :
    LET r == Runs(segs)[i] IN Regular(SubSeq(segs, r[1], r[2]))
RevPath(segs) ==
  LET rs == Runs(segs)
      parts == [i \in 1..Len(rs) |-> RevRun(SubSeq(segs, rs[i][1], rs[i][2]))]
      all == FlattenSeq(Reverse(parts))
  IN Repair([all EXCEPT ![1].s = segs[1].s])

(* ------------------------------ reference points ------------------------------------------- *)
FirstPoint(segs) == IF segs = <<>> THEN None ELSE IF segs[1].s # None THEN segs[1].s ELSE segs[1].e
CurrentPoint(segs) == IF segs = <<>> THEN None ELSE segs[Len(segs)].e
\* Where a closepath would return to: the end of the last moveto, else that of the first segment.
ZPoint(segs) ==
  LET m == {i \in 1..Len(segs) : segs[i].k = "M"} IN
  IF segs = <<>> THEN None
  ELSE IF m # {} /\ segs[LastMove(segs, Len(segs))].e # None THEN segs[LastMove(segs, Len(segs))].e
  ELSE segs[1].e
\* The first control point of a smooth continuation.
SmoothPoint(segs) ==
  LET e == CurrentPoint(segs) IN
  IF segs = <<>> \/ e = None \/ segs[Len(segs)].c = <<>> THEN e
  ELSE LET c == segs[Len(segs)].c[Len(segs[Len(segs)].c)] IN <<2 * e[1] - c[1], 2 * e[2] - c[2]>>
Marks(segs) == <<FirstPoint(segs), CurrentPoint(segs), ZPoint(segs), SmoothPoint(segs)>>
Plus2(p, d) == <<p[1] + d[1], p[2] + d[2]>>
Defining(segs) == FlattenSeq([i \in 1..Len(segs) |->
  LET g == segs[i] IN
  (IF g.s = None THEN <<>> ELSE <<g.s>>) \o g.c \o <<g.e>>
  \o (IF g.k # "A" THEN <<>> ELSE <<g.a[1], Plus2(g.a[1], g.a[2]), Plus2(g.a[1], g.a[3])>>)])
\* Closepaths that draw something get a line that does it for them.
Direct(segs) == Repair(FlattenSeq([i \in 1..Len(segs) |->
  LET g == segs[i] IN
  IF g.k = "Z" /\ g.s # None /\ g.e # None /\ g.s # g.e
  THEN <<Seg("L", g.s, <<>>, g.e, <<>>), [g EXCEPT !.s = g.e]>> ELSE <<g>>]))

(* ------------------------------ the machine ------------------------------------------------ *)
\* view: <<>> or the window <<first, last>> of a held subpath (empty when last < first).
\* o.w: the operation goes through the held view.
Step(st, o) ==
  LET segs == st.segs  w == st.view
      lo == IF o.w THEN w[1] ELSE 1
      hi == IF o.w THEN w[2] ELSE Len(segs)
      pre == SubSeq(segs, 1, lo - 1)
      mid == SubSeq(segs, lo, hi)
      post == SubSeq(segs, hi + 1, Len(segs))
      View(n) == IF o.w THEN <<lo, lo + n - 1>> ELSE <<>>
      Put(items) == [segs |-> Repair(pre \o items \o post), view |-> View(Len(items)), res |-> "ok", sel |-> <<>>]
      ed == Edit(mid, o)
      looks == o.op \in {"get", "getsl"} IN
  CASE o.op = "open" -> [segs |-> segs, view |-> Runs(segs)[o.i], res |-> "ok", sel |-> <<>>]
    [] o.op = "measure" -> [segs |-> segs, view |-> w, res |-> "ok", sel |-> <<>>]
    [] o.op = "direct" -> [Put(<<>>) EXCEPT !.segs = Direct(segs)]
    [] o.op = "transform" -> Put(MapAll(Mats[o.i], mid))
    [] o.op = "segmap" -> Put([mid EXCEPT ![o.i] = MapSeg(Mats[o.sl[1]], @)])
    [] o.op = "reverse" -> IF o.w THEN Put(RevRun(mid)) ELSE [Put(<<>>) EXCEPT !.segs = RevPath(segs)]
    [] ed.st # "ok" -> [segs |-> segs, view |-> w, res |-> ed.st, sel |-> <<>>]
    [] looks -> [segs |-> segs, view |-> w, res |-> "ok",
                 sel |-> IF o.op = "get" THEN <<lo - 1 + (IF o.i < 0 THEN o.i + Len(mid) ELSE o.i)>>
                         ELSE [i \in 1..Len(Selected(o.sl, Len(mid))) |-> lo - 1 + Selected(o.sl, Len(mid))[i]]]
    [] OTHER -> Put(ed.items)

(* ---- random segments and paths -------------------------------------------------------------------- *)
Coord == -9..9
RandPt(u) == <<RandomElement(Coord) * 3, RandomElement(Coord) * 2>>
RandOpt(p, d) == IF RandomElement(1..d) = 1 THEN None ELSE p
RandArc(u) == <<RandPt(0), <<RandomElement(1..5), 0>>, <<0, RandomElement(1..5)>>, RandomElement({-3, -2, -1, 1, 2, 3})>>
\* d: how often a point is missing (one in d; 0 never)
RandSeg(k, d) ==
  LET P(x) == IF d = 0 THEN RandPt(x) ELSE RandOpt(RandPt(x), d)
      S(x) == RandOpt(RandPt(x), 2)
      D(x) == RandPt(x) IN
  CASE k = "M" -> Seg("M", S(0), <<>>, P(1), <<>>)
    [] k = "L" -> Seg("L", S(0), <<>>, P(1), <<>>)
    [] k = "Z" -> Seg("Z", S(0), <<>>, RandOpt(D(1), 2), <<>>)
    [] k = "Q" -> Seg("Q", S(0), <<D(2)>>, D(1), <<>>)
    [] k = "C" -> Seg("C", S(0), <<D(2), D(3)>>, D(1), <<>>)
    [] OTHER   -> Seg("A", D(0), <<>>, D(1), RandArc(0))
Kinds == <<"M", "L", "L", "Z", "Q", "C", "A", "M">>
Drawn == <<"L", "L", "Q", "C", "A">>
Miss == IF Inits = "partial" THEN 6 ELSE 0
RandKinds(n) == [i \in 1..n |-> Kinds[RandomElement(1..8)]]
Fresh(ks) == [i \in 1..Len(ks) |-> RandSeg(ks[i], Miss)]
RandSegs(lo, hi) == Fresh(RandKinds(RandomElement(lo..hi)))
RandRun(x) == Fresh(<<"M">> \o [i \in 1..RandomElement(0..3) |-> Drawn[RandomElement(1..5)]]
                    \o (IF RandomElement(1..2) = 1 THEN <<"Z">> ELSE <<>>))
\* Arcs that really lead from their start (on the first axis) to their end.
Quarter(u, v, q) == CASE q % 4 = 0 -> u [] q % 4 = 1 -> v [] q % 4 = 2 -> <<-u[1], -u[2]>> [] OTHER -> <<-v[1], -v[2]>>
FitArc(g) ==
  IF g.k # "A" \/ g.s = None THEN g
  ELSE LET c == <<g.s[1] - g.a[2][1], g.s[2] - g.a[2][2]>>
           q == Quarter(g.a[2], g.a[3], (g.a[4] + 4) % 4)
       IN [g EXCEPT !.a[1] = c, !.e = <<c[1] + q[1], c[2] + q[2]>>]
FitStep(acc, i) == LET a == Join(acc, i) IN [a EXCEPT ![i] = FitArc(@)]
Fit(items) == FoldLeft(FitStep, items, [i \in 1..Len(items) |-> i])
RandInit == IF Inits = "partial" THEN Repair(RandSegs(0, 6))
            ELSE Repair(Fit(FlattenSeq([i \in 1..RandomElement(1..3) |-> RandRun(i)])))

=============================================================================
