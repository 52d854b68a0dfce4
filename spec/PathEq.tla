-------------------------------- MODULE PathEq --------------------------------
(* P12.  Two lists of segments, the second being the first with one thing changed or nothing.
   They are equal exactly when they agree segment by segment in kind and in every point, and arcs
   also in their sweep.                                                                           *)
EXTENDS PathOps, Json
CONSTANTS Runs2       \* subpaths at most
VARIABLES a, b, how
vars == <<a, b, how>>
Moved(p) == IF p = None THEN RandPt(9) ELSE RandomElement({<<p[1] + 1, p[2]>>, <<p[1], p[2] + 1>>, <<p[1] - 1, p[2]>>, <<p[1], p[2] - 1>>, <<p[2], p[1]>>})
Step1(d) == RandomElement({<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>})
Add2(p, d) == <<p[1] + d[1], p[2] + d[2]>>
Sub2(p, d) == <<p[1] - d[1], p[2] - d[2]>>
Hows == {"same", "flags", "start", "end", "control", "kind", "nostart", "noend", "drop", "extra", "swap", "twice", "start", "end",
         "control", "center", "ellipse", "first", "second", "sweep", "reverse"}
\* what can be changed in segment i of x
Change(x, i, h) ==
  LET g == x[i] n == Len(x) IN
  CASE h = "start" -> [x EXCEPT ![i].s = Moved(@)]
    [] h = "end" -> [x EXCEPT ![i].e = Moved(@)]
    [] h = "nostart" -> IF g.k = "A" THEN x ELSE [x EXCEPT ![i].s = None]
    [] h = "noend" -> IF g.k \in {"M", "L", "Z"} THEN [x EXCEPT ![i].e = None] ELSE x
    [] h = "control" /\ g.c # <<>> -> [x EXCEPT ![i].c[RandomElement(1..Len(g.c))] = Moved(@)]
    [] h = "kind" -> [x EXCEPT ![i].k = CASE @ = "L" -> RandomElement({"Z", "M"}) [] @ = "Z" -> "L" [] @ = "M" -> "L" [] OTHER -> @]
    [] h = "drop" -> Drop(x, <<i - 1>>)
    [] h = "extra" -> Append(x, RandSeg("L", 0))
    [] h = "twice" -> SubSeq(x, 1, i) \o SubSeq(x, i, n)
    [] h = "swap" /\ i < n -> [x EXCEPT ![i] = x[i + 1], ![i + 1] = x[i]]
    [] h = "reverse" -> [x EXCEPT ![i] = RevSeg(@)]
    [] h = "center" /\ g.k = "A" ->      \* the radius points stay
         LET d == Step1(0) IN [x EXCEPT ![i].a = <<Add2(@[1], d), Sub2(@[2], d), Sub2(@[3], d), @[4]>>]
    [] h = "ellipse" /\ g.k = "A" -> [x EXCEPT ![i].a[1] = Add2(@, Step1(0))]
    [] h = "first" /\ g.k = "A" -> [x EXCEPT ![i].a[2] = Add2(@, Step1(0))]
    [] h = "second" /\ g.k = "A" -> [x EXCEPT ![i].a[3] = Add2(@, Step1(0))]
    [] h = "sweep" /\ g.k = "A" -> [x EXCEPT ![i].a[4] = RandomElement({-@, @ + 4, @ - 4})]
    [] OTHER -> x
Init == a = <<>> /\ b = <<>> /\ how = "draw"
Draw == /\ how = "draw"
        /\ \E x \in {TLCEval(IF RandomElement(1..2) = 1 THEN Repair(Fit(RandRun(1)))
                             ELSE Repair(Fit(FlattenSeq([i \in 1..RandomElement(1..Runs2) |-> RandRun(i)]))))} :
             \E h \in {RandomElement(Hows)} : \E i \in {RandomElement(1..Len(x))} : \E y \in {Change(x, i, h)} :
               a' = x /\ b' = y /\ how' = h
Spec == Init /\ [][Draw]_vars
Equal(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : x[i] = y[i]
\* Path data starts with a moveto from nowhere, is joined and whole; arcs do not show all of themselves.
Written(x) == x # <<>> /\ x[1].k = "M" /\ x[1].s = None /\ Repair(x) = x /\ Whole(x) /\ \A i \in 1..Len(x) : x[i].k # "A"
InvSame == (how \in {"same", "flags"}) => a = b
InvOther == (how \in {"drop", "extra", "twice"}) => ~Equal(a, b)
Emit == how # "draw" => PrintT("@@" \o ToJson([a |-> a, b |-> b, how |-> how, eq |-> Equal(a, b),
   segs |-> [i \in 1..Min2(Len(a), Len(b)) |-> a[i] = b[i]],
   runs |-> <<Cardinality(Starts(a)), Cardinality(Starts(b))>>, text |-> <<Written(a), Written(b)>>]))
=============================================================================
