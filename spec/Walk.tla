--------------------------------- MODULE Walk ---------------------------------
(* G02.  A path of segments whose lengths are whole numbers of units (a unit of an arc is a quarter
   turn of a circle of radius one) is drawn at random; then a walker strides along it in half units.
   Where it is, is the segment reached and the fraction of its length covered.  Where the pen jumps
   it is in two places.                                                                            *)
EXTENDS Geo, Json
CONSTANTS Size
VARIABLES segs, cur, z,      \* the path; its last point; the start of the last subpath
          phase, at, w,      \* the walker: segment and half units covered on it
          seen
vars == <<segs, cur, z, phase, at, w, seen>>
Axes == << <<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>> >>
Pyth == << <<3, 4, 5>>, <<0, 1, 1>>, <<1, 0, 1>>, <<-4, 3, 5>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<12, -5, 13>>, <<4, -3, 5>> >>
Sq(q) == <<q[1]*q[1] - q[2]*q[2], 2*q[1]*q[2]>>
Mul(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
Bez(p, ds) == [kind |-> "bez", net |-> [i \in 1..(Len(ds) + 1) |-> IF i = 1 THEN p ELSE Add(p, ds[i - 1])], len |-> 0, arc |-> <<>>]
Straight(p, d, ks) == [Bez(p, [i \in 1..Len(ks) |-> <<ks[i] * d[1], ks[i] * d[2]>>]) EXCEPT !.len = ks[Len(ks)] * d[3]]
Hodo(p, s, y) == [Bez(p, <<Sq(s), Add(Sq(s), Mul(s, y)), Add(Add(Sq(s), Mul(s, y)), Sq(y))>>) EXCEPT !.len = Norm2(s) + Dot(s, y) + Norm2(y)]
Round(p, r, q, n, dir) == [kind |-> "arc", net |-> <<p, <<0, 0>> >>, len |-> r * n,
  arc |-> [c |-> Sub(p, Times(r, Axes[q])), u |-> <<r, 0>>, v |-> <<0, r>>, a0 |-> Append(Axes[q], 1), turn |-> <<0, 1, 1>>, n |-> n, dir |-> dir]]
ArcEnd(s) == Add(s.arc.c, Times(s.arc.u[1], Axes[(((CHOOSE q \in 1..4 : Append(Axes[q], 1) = s.arc.a0) - 1 + s.arc.n * s.arc.dir + 8) % 4) + 1]))
EndOf(s) == IF s.kind = "arc" THEN ArcEnd(s) ELSE s.net[Len(s.net)]
StartOf(s) == IF s.kind = "move" THEN s.net[2] ELSE s.net[1]
Sorted(a, b, c) == SortSeq(<<a, b, c>>, <)
New(w0) ==
  CASE w0 \in 1..3 -> Pick({Straight(cur, d, ks) : d \in {Pyth[RandomElement(1..8)]}, ks \in {<<RandomElement(0..3)>>}})
    [] w0 = 4 -> Pick({Straight(cur, d, ks) : d \in {Pyth[RandomElement(1..8)]}, ks \in {LET s == Sorted(RandomElement(0..2), RandomElement(0..3), 0) IN <<s[2], s[3]>>}})
    [] w0 = 5 -> Pick({Straight(cur, d, ks) : d \in {Pyth[RandomElement(1..8)]}, ks \in {Sorted(RandomElement(0..2), RandomElement(0..3), RandomElement(0..3))}})
    [] w0 \in 6..7 -> Pick({Hodo(cur, s, y) : s \in {RandPt(2)}, y \in {RandPt(2)}})
    [] w0 \in 8..9 -> Pick({Round(cur, r, q, n, dir) : r \in {RandomElement(1..7)}, q \in {RandomElement(1..4)}, n \in {RandomElement(1..3)}, dir \in {RandomElement({1, -1})}})
    [] w0 \in 10..11 -> [kind |-> "move", net |-> <<cur, RandPt(15)>>, len |-> 0, arc |-> <<>>]
    [] OTHER -> IF Len(segs) > 0 /\ Square(Norm2(Sub(z, cur)))
                THEN [kind |-> "close", net |-> <<cur, z>>, len |-> Root(Norm2(Sub(z, cur))), arc |-> <<>>]
                ELSE Straight(cur, Pyth[1], <<0>>)
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE s[1].len + Total(Tail(s))
Init == segs = <<>> /\ cur = <<0, 0>> /\ z = <<0, 0>> /\ phase = "draw" /\ at = 0 /\ w = 0 /\ seen = <<>>
Draw == phase = "draw" /\ Len(segs) < Size /\
        \E w0 \in {IF segs = <<>> THEN RandomElement({10, 10, 10, RandomElement(1..9)}) ELSE RandomElement(1..13)} :
        \E first \in {IF segs = <<>> /\ w0 # 10 THEN RandPt(9) ELSE cur} :
        \E s0 \in {New(w0)} :
        LET s == IF segs # <<>> \/ w0 = 10 THEN s0
                 ELSE IF s0.kind = "arc" THEN [s0 EXCEPT !.net[1] = Add(@, first), !.arc.c = Add(@, first)]
                 ELSE [s0 EXCEPT !.net = [i \in 1..Len(s0.net) |-> Add(s0.net[i], first)]] IN
        /\ segs' = Append(segs, IF segs = <<>> /\ w0 # 10 THEN s ELSE s) /\ cur' = EndOf(s)
        /\ z' = IF s.kind = "move" \/ segs = <<>> THEN EndOf(s) ELSE z
        /\ UNCHANGED <<phase, at, w, seen>>
\* ---- walking
Long == {i \in 1..Len(segs) : segs[i].len > 0}
FirstLong == CHOOSE i \in Long : \A j \in Long : i <= j
LastLong == CHOOSE i \in Long : \A j \in Long : i >= j
NextLong(i) == CHOOSE j \in Long : j > i /\ \A k \in Long : k > i => j <= k
\* where the walker is on the current segment: <<x, y, denominator>>; for arcs the fraction says it
Here(i, a) == LET s == segs[i] IN
  IF s.kind = "arc" THEN <<>>
  ELSE LET n == 2 * s.len IN <<Bernstein(s.net, a, n)[1], Bernstein(s.net, a, n)[2], Pow(n, Len(s.net) - 1)>>
Exact(p) == <<p[1], p[2], 1>>
Note(i, a) ==
  LET full == a = 2 * segs[i].len
      \* a last position (exactly 1) is the last point, whatever moves follow the last segment of some length
      others == (IF full /\ i # LastLong THEN {Exact(StartOf(segs[NextLong(i)])), Exact(EndOf(segs[i]))} ELSE {})
             \cup (IF full /\ i = LastLong THEN {Exact(EndOf(segs[i])), Exact(EndOf(segs[Len(segs)]))} ELSE {})
             \cup (IF a = 0 /\ i = FirstLong THEN {Exact(StartOf(segs[i])), Exact(StartOf(segs[1]))} ELSE {}) IN
  [seg |-> i, a |-> a, n |-> 2 * segs[i].len, p |-> Here(i, a), or |-> SetToSeq(others),
   end |-> IF full /\ i = LastLong THEN <<Exact(EndOf(segs[Len(segs)]))>> ELSE <<>>]
Set == phase = "draw" /\ Len(segs) = Size /\ Long # {} /\ phase' = "walk" /\ at' = FirstLong /\ w' = 0
       /\ seen' = <<Note(FirstLong, 0)>> /\ UNCHANGED <<segs, cur, z>>
RECURSIVE Reach(_, _)     \* carry over the joints
Reach(i, a) == IF a <= 2 * segs[i].len \/ i = LastLong THEN <<i, MinI(a, 2 * segs[i].len)>>
               ELSE Reach(NextLong(i), a - 2 * segs[i].len)
Arrived == phase = "walk" /\ at = LastLong /\ w = 2 * segs[at].len
\* strides end at joints half of the time
Stride == phase = "walk" /\ ~Arrived /\ \E d \in {RandomElement({1, 2, 3, 5, 9, 14, 0})} :
          LET a == IF w = 2 * segs[at].len THEN NextLong(at) ELSE at
              r == IF d = 0 THEN <<a, 2 * segs[a].len>> ELSE Reach(at, w + d) IN
          at' = r[1] /\ w' = r[2] /\ seen' = Append(seen, Note(r[1], r[2])) /\ UNCHANGED <<segs, cur, z, phase>>
Spec == Init /\ [][Draw \/ Set \/ Stride]_vars
\* The distance walked is that of the segments behind plus what is covered.
RECURSIVE Before(_)
Before(i) == IF i = 0 THEN 0 ELSE segs[i].len + Before(i - 1)
Walked(o) == 2 * Before(o.seg - 1) + o.a
InvForward == phase = "walk" => /\ \A k \in 1..(Len(seen) - 1) : Walked(seen[k]) < Walked(seen[k + 1])
                                /\ Walked(seen[Len(seen)]) <= 2 * Total(segs)
                                /\ (Arrived => Walked(seen[Len(seen)]) = 2 * Total(segs))
\* The pen is connected except at moves.
InvConnected == \A i \in 1..(Len(segs) - 1) : segs[i + 1].net[1] = EndOf(segs[i])
Emit == Arrived => PrintT("@@" \o ToJson([segs |-> segs, seen |-> seen]))
=============================================================================
