------------------------------- MODULE Transform -------------------------------
(* G07.  Segments are known by their defining points: control points, or for an arc the points at equal
   steps of its parameter (an affine map keeps the steps).  Mapping a segment maps all of them; a path
   maps all its segments, a subpath those of its run.                                              *)
EXTENDS Affine, Json
CONSTANTS Size, Steps
VARIABLES base,    \* the segments: [kind, pts, arc]
          now,     \* their points now
          total,   \* the map from base to now of whole-path steps, while there were no others
          hist, subject
vars == <<base, now, total, hist, subject>>
P1(p) == <<p[1], p[2], 1>>
RandArc(x) == Pick({[c |-> c, u |-> Times(IF cl = 1 THEN ab[1] ELSE a, u), v |-> Times(IF cl = 1 THEN ab[2] ELSE b, <<-u[2], u[1]>>), a0 |-> d,
                     turn |-> StepTurns[k], n |-> RandomElement(1..MinI(3, MaxSteps[k])), dir |-> RandomElement({1, -1})] :
   cl \in {RandomElement(1..5)}, ab \in {RandomElement({<<60, 61>>, <<250, 249>>, <<1, 200>>})},
   k \in {RandomElement(1..4)}, c \in {RandPt(9)}, d \in {Units[RandomElement(1..8)]},
   u \in {RandomElement({<<1, 0>>, <<0, 1>>, <<3, 4>>, <<-4, 3>>, <<-3, -4>>, <<4, -3>>, <<-1, -2>>, <<-1, 0>>, <<0, -2>>, <<1, 1>>, <<-2, 1>>})},
   a \in {RandomElement(1..4)}, b \in {RandomElement(1..4)}})
RECURSIVE Dirs(_, _)
Dirs(a, k) == IF k = 0 THEN a.a0 ELSE IF a.dir > 0 THEN Spin(Dirs(a, k - 1), a.turn) ELSE Unspin(Dirs(a, k - 1), a.turn)
ArcPts(a) == [k \in 1..(a.n + 1) |-> OnEllipse(a.c, a.u, a.v, Dirs(a, k - 1))]
Last3(s) == s[Len(s)].pts[Len(s[Len(s)].pts)]
ZOf(s) == LET ms == {i \in 1..Len(s) : s[i].kind = "move"} IN
          IF ms = {} THEN s[1].pts[Len(s[1].pts)] ELSE LET i == CHOOSE i \in ms : \A j \in ms : j <= i IN s[i].pts[2]
Seg(k, pts) == [kind |-> k, pts |-> pts, arc |-> <<>>]
\* what is appended: one or two segments
More(w, s) ==
  LET cur == IF s = <<>> THEN P1(RandPt(9)) ELSE Last3(s)
      R == P1(RandPt(9)) IN
  CASE w \in 1..2 -> Pick({<<Seg("line", <<c, p>>)>> : c \in {cur}, p \in {R}})
    [] w = 3 -> Pick({<<Seg("quad", <<c, p, q>>)>> : c \in {cur}, p \in {R}, q \in {P1(RandPt(9))}})
    [] w \in 4..5 -> Pick({<<Seg("cubic", <<c, p, q, r>>)>> : c \in {cur}, p \in {R}, q \in {P1(RandPt(9))}, r \in {P1(RandPt(9))}})
    [] w = 6 -> Pick({<<Seg("move", <<c, p>>)>> : c \in {cur}, p \in {R}})
    [] w = 7 -> IF s = <<>> THEN Pick({<<Seg("line", <<c, p>>)>> : c \in {cur}, p \in {R}}) ELSE <<Seg("close", <<cur, ZOf(s)>>)>>
    [] OTHER -> Pick({<<Seg("flat", <<c, p>>)>> : c \in {cur}, p \in {R}})
WithArc(w, s) == IF w < 9 THEN More(w, s)
  ELSE Pick({LET pts == ArcPts(a)
                 seg == [kind |-> "arc", pts |-> pts, arc |-> a] IN
             IF s = <<>> THEN <<seg>> ELSE <<Seg(j, <<Last3(s), pts[1]>>), seg>> :
             j \in {RandomElement({"line", "move"})}, a \in {RandArc(0)}})
Init == base = <<>> /\ now = <<>> /\ total = Id /\ hist = <<>> /\ subject = "none"
Draw == subject = "none" /\ Len(base) < Size /\
        \E w \in {IF base = <<>> THEN RandomElement({6, 6, 1, 4, 9}) ELSE RandomElement(1..10)} :
        \E s \in {WithArc(w, base)} :
           base' = base \o s /\ now' = [i \in 1..(Len(base) + Len(s)) |-> (base \o s)[i].pts] /\ UNCHANGED <<total, hist, subject>>
Single == subject = "none" /\ base = <<>> /\ Size = 1 /\ \E w \in {RandomElement({1, 3, 4, 6, 7, 8, 9, 9, 9})} : \E s \in {WithArc(w, <<>>)} :
           base' = s /\ now' = <<s[1].pts>> /\ subject' = "segment" /\ UNCHANGED <<total, hist>>
Whole0 == subject = "none" /\ Len(base) >= Size /\ Size > 1 /\ subject' = "path" /\ UNCHANGED <<base, now, total, hist>>
\* ---- runs
Starts == {1} \cup {i \in 1..Len(base) : base[i].kind = "move"}
RunOf(i) == LET s == CHOOSE j \in Starts : j <= i /\ \A k \in Starts : k <= i => k <= j
                after == {j \in Starts : j > s} IN
            <<s, IF after = {} THEN Len(base) ELSE (CHOOSE j \in after : \A k \in after : j <= k) - 1>>
Runs == {RunOf(i) : i \in 1..Len(base)}
SmallEnough(n) == \A i \in 1..Len(n) : \A k \in 1..Len(n[i]) : n[i][k][3] < 4000 /\ Abs(n[i][k][1]) < 400000 /\ Abs(n[i][k][2]) < 400000
Whole == \E op \in {RandomElement(OpNames)} : \E o \in {RandOp(op)} : \E form \in {RandomElement({"inplace", "new", "text", "inplace_text"})} :
   LET m == Elem(o)
       n == [i \in 1..Len(now) |-> [k \in 1..Len(now[i]) |-> Image(now[i][k], m)]] IN
   /\ Det(m) # 0 /\ Fits(Mul(total, m), 20000, 3000) /\ SmallEnough(n)
   /\ now' = n /\ total' = Mul(total, m) /\ hist' = Append(hist, [on |-> "all", form |-> form, o |-> o, m |-> m, run |-> <<1, Len(base)>>, now |-> n])
   /\ UNCHANGED <<base, subject>>
\* A closepath of the run and a moveto's start behind it keep the path connected.
Joined(n) == [i \in 1..Len(n) |-> IF i > 1 /\ base[i].kind = "move" THEN [n[i] EXCEPT ![1] = n[i - 1][Len(n[i - 1])]] ELSE n[i]]
Part == subject = "path" /\
   \E r \in {LET ss == SetToSeq(Runs) IN ss[RandomElement(1..Len(ss))]} :
   \E op \in {RandomElement(OpNames)} : \E o \in {RandOp(op)} : \E form \in {RandomElement({"inplace", "new", "inplace_text"})} :
   LET m == Elem(o)
       n == Joined([i \in 1..Len(now) |-> [k \in 1..Len(now[i]) |-> IF i >= r[1] /\ i <= r[2] THEN Image(now[i][k], m) ELSE now[i][k]]]) IN
   /\ Det(m) # 0 /\ SmallEnough(n)
   /\ now' = (IF form = "new" THEN now ELSE n) /\ total' = (IF form = "new" THEN total ELSE <<>>)
   /\ hist' = Append(hist, [on |-> "run", form |-> form, o |-> o, m |-> m, run |-> r, now |-> n])
   /\ UNCHANGED <<base, subject>>
Step == subject # "none" /\ Len(hist) < Steps /\ total # <<>> /\ \E k \in {RandomElement(1..5)} : IF k = 1 THEN Part ELSE Whole
Step2 == subject # "none" /\ Len(hist) < Steps /\ total = <<>> /\ Part
\* A single step by a map that hardly slants, stretches or turns.
TinyMap(k, q, w) == Lowest(CASE w = 1 -> <<q, k, 0, q, 0, 0, q>> [] w = 2 -> <<q, 0, k, q, 0, 0, q>> [] w = 3 -> <<q + k, 0, 0, q, 0, 0, q>>
                       [] w = 4 -> <<q, k, k, q, 0, 0, q>> [] OTHER -> <<q, k, -k, q, 0, 0, q>>)
Hardly == subject = "segment" /\ hist = <<>> /\ (\A k \in 1..Len(now[1]) : \A i \in 1..3 : Abs(now[1][k][i]) <= 25000) /\
   \E k \in {RandomElement({1, -1, 3})}, q \in {RandomElement({5000, 12000, 25000})}, w \in {RandomElement(1..5)}, form \in {RandomElement({"inplace", "new", "text", "inplace_text"})} :
   LET m == TinyMap(k, q, w)
       n == [i \in 1..Len(now) |-> [j \in 1..Len(now[i]) |-> Image(now[i][j], m)]] IN
   /\ now' = n /\ total' = m /\ hist' = <<[on |-> "all", form |-> form, o |-> [op |-> "cat", args |-> <<m>>, at |-> <<>>], m |-> m, run |-> <<1, Len(base)>>, now |-> n]>>
   /\ UNCHANGED <<base, subject>>
SpecHardly == Init /\ [][Single \/ Hardly]_vars
Spec == Init /\ [][Draw \/ Single \/ Whole0 \/ Step \/ Step2]_vars
\* Mapping one after the other is mapping by the product.
InvProduct == (total # <<>> /\ subject # "none") => \A i \in 1..Len(base) : \A k \in 1..Len(base[i].pts) : 
      (base[i].pts[k][3] < 1000 => Image(base[i].pts[k], total) = Image(now[i][k], Id))
\* The path stays connected, arcs stay on ellipses: opposite chords of equal steps are parallel.
InvConnected == \A i \in 1..(Len(now) - 1) : Image(now[i][Len(now[i])], Id) = Image(now[i + 1][1], Id)
Emit == (Len(hist) = Steps) => PrintT("@@" \o ToJson([subject |-> subject, base |-> base, hist |-> hist, total |-> total]))
=============================================================================
