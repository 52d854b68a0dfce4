------------------------------ MODULE PathRegs ------------------------------
(* Values, not references: four registers hold paths, subpaths of a path of their own, or single
   segments.  Copying, constructing and the binary operators write a new value into a register;
   in-place changes touch one register only.
   A register is [t, v, w]: t "path" | "sub" | "seg", v its segments (for "sub" those of the whole
   path under it, w the window).                                                                 *)
EXTENDS PathOps, Json
CONSTANTS Depth
VARIABLES regs, hist, on
vars == <<regs, hist, on>>
R == 4
Path(v) == [t |-> "path", v |-> v, w |-> <<1, Len(v)>>]
Shown(r) == SubSeq(r.v, r.w[1], r.w[2])
\* o: op, dst, x, y registers, i a number, k which run of x (0: x itself), j which run of y
Run(r, k) == IF k = 0 THEN Shown(r) ELSE LET w == Runs(r.v)[k] IN SubSeq(r.v, w[1], w[2])
Shift(p, d) == IF p = None THEN None ELSE <<p[1] + d[1], p[2] + d[2]>>
AsView(r, k) == IF k = 0 THEN r ELSE [t |-> "sub", v |-> r.v, w |-> Runs(r.v)[k]]
Bare(g) == [g EXCEPT !.s = None]
Through(r, op, i) ==  \* an in-place operation of PathOps on a register
  LET st == Step([segs |-> r.v, view |-> r.w], [op |-> op, w |-> r.t = "sub", i |-> i, sl |-> <<Nil, Nil, Nil>>, new |-> <<>>])
  IN IF r.t = "sub" THEN [r EXCEPT !.v = st.segs, !.w = st.view] ELSE Path(st.segs)
MapSegReg(r, i) == [r EXCEPT !.v = MapAll(Mats[i], r.v)]
Map(r, i) == IF r.t = "seg" THEN MapSegReg(r, i) ELSE Through(r, "transform", i)
\* A joint moves: the end of a segment and the start of the next.
Joint(v, i, d) == LET a == [v EXCEPT ![i].e = Shift(@, d)] IN
                  IF i < Len(v) THEN [a EXCEPT ![i + 1].s = Shift(@, d)] ELSE a
\* What is added to a subpath goes into its path, right after the subpath, and belongs to it.
Grown(r, new) == [t |-> "sub", v |-> Repair(SubSeq(r.v, 1, r.w[2]) \o new \o SubSeq(r.v, r.w[2] + 1, Len(r.v))),
                  w |-> <<r.w[1], r.w[2] + Len(new)>>]
Plus(r, new) == IF r.t = "sub" THEN Grown(r, new) ELSE Path(Repair(Shown(r) \o new))
Value(o) ==
  LET x == regs[o.x]  y == regs[o.y] IN
  CASE o.op = "copy" -> AsView(x, o.k)
    [] o.op = "ctor" -> Path(Run(x, o.k))
    [] o.op = "map"  -> Map(AsView(x, o.k), o.i)          \* @ on paths, * on subpaths and segments
    [] o.op = "add"  -> Plus(x, Run(y, o.k))
    [] o.op = "text+" -> Path(Repair(o.new \o Run(x, 0)))
    [] o.op = "+text" -> Plus(x, o.new)
    \* in place: dst = x
    [] o.op = "iadd" -> Plus(x, Run(y, o.k))
    [] o.op = "itext" -> Plus(x, o.new)
    [] o.op = "imap" -> Map(x, o.i)
    [] o.op = "del"  -> Through(x, "del", o.i)
    [] o.op = "reverse" -> IF x.t = "seg" THEN [x EXCEPT !.v = <<RevSeg(x.v[1])>>] ELSE Through(x, "reverse", 0)
    [] o.op = "poke" -> [x EXCEPT !.v = [@ EXCEPT ![o.i].c = [m \in 1..Len(@) |-> Shift(@[m], o.d)],
                                                  ![o.i].a = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![1] = Shift(@, o.d)]]]
    [] o.op = "joint" -> [x EXCEPT !.v = Joint(@, o.i, o.d)]
    [] o.op = "first" -> [x EXCEPT !.v[1].s = Shift(@, o.d)]
    [] OTHER -> x
Making == {"copy", "ctor", "map", "add", "text+", "+text"}
Inplace == {"iadd", "itext", "imap", "del", "reverse", "poke", "joint", "first"}
Size(v) == \A i \in 1..Len(v) : v[i].e # None => Max2(v[i].e[1], -v[i].e[1]) + Max2(v[i].e[2], -v[i].e[2]) < 100000
Applies(o) ==
  LET x == regs[o.x]  y == regs[o.y] IN
  /\ o.op \in {"copy", "ctor", "map"} => (o.k = 0 \/ (x.t = "path" /\ o.k <= Len(Runs(x.v))))
  /\ o.op = "ctor" => (x.t \in {"path", "sub"} /\ (o.k > 0 => x.t = "path"))
  /\ o.op \in {"map", "imap"} => Size(x.v)
  /\ o.op \in {"add", "iadd"} => (/\ (o.k = 0 \/ (y.t = "path" /\ o.k <= Len(Runs(y.v))))
                                  /\ Len(x.v) + Len(y.v) < 14 /\ x.v # <<>> /\ y.v # <<>>
                                  /\ (x.t = "sub" => y.t # "sub" /\ o.k = 0)   \* (subpath + subpath is not supported)
                                  /\ (x.t = "seg" /\ y.t = "seg" => x.v \o y.v = Repair(x.v \o y.v))
                                  /\ (o.op = "iadd" => x.t # "seg" /\ y.t # "seg"))
  /\ o.op \in {"text+", "+text", "itext"} => x.v # <<>> /\ Len(x.v) < 12
  /\ o.op = "text+" => x.t # "seg"
  /\ o.op = "itext" => x.t # "seg"
  /\ o.op \in {"del"} => x.t = "path" /\ o.i < Len(x.v)
  /\ o.op = "reverse" => (\/ (x.t = "seg" /\ x.v[1].s # None)
                          \/ (x.t = "path" /\ AllRegular(x.v))
                          \/ (x.t = "sub" /\ Regular(Shown(x))))
  /\ o.op \in {"poke", "joint"} => (/\ o.i <= Len(x.v)
                                    /\ (x.t = "sub" => o.i \in x.w[1]..x.w[2])
                                    /\ (x.t = "sub" /\ o.op = "joint" => o.i < x.w[2]))
  /\ o.op = "joint" => (x.v[o.i].k \notin {"M", "Z"} /\ (o.i > 1 \/ x.t = "seg"))
  /\ o.op = "first" => (/\ x.v # <<>> /\ (x.t = "sub" => x.w[1] = 1 /\ x.w[2] >= 1)
                        /\ (x.t = "seg" \/ x.v[1].k = "M"))
RandOp(u) ==
  LET op == RandomElement(Making \cup Inplace) IN
  [op |-> op, x |-> RandomElement(1..R), y |-> RandomElement(1..R), dst |-> RandomElement(1..R),
   i |-> RandomElement(1..6), k |-> RandomElement({0, 0, 1, 2}), d |-> <<RandomElement(1..50), RandomElement(-50..-1)>>,
   new |-> <<>>]
TextOf(x) == Fresh([i \in 1..RandomElement(1..2) |-> <<"M", "L", "Q", "C">>[RandomElement(1..4)]])
Dressed(o) == IF o.op \in {"text+", "+text", "itext"} THEN [o EXCEPT !.new = [i \in 1..2 |-> Bare(RandSeg(<<"M", "L", "Q", "C">>[RandomElement(1..4)], 0))]]
              ELSE IF o.op \in {"map", "imap"} THEN [o EXCEPT !.i = RandomElement(1..Len(Mats))]
              ELSE o
Target(o) == IF o.op \in Inplace THEN [o EXCEPT !.dst = o.x] ELSE o
Do(o) == LET r == [regs EXCEPT ![o.dst] = Value(o)] IN
         regs' = r /\ on' = on /\ hist' = Append(hist, [o |-> o, regs |-> r])
RandReg(q) == IF q = 1 THEN Path(Repair(Fit(FlattenSeq([i \in 1..RandomElement(1..2) |-> RandRun(i)]))))
              ELSE IF q = 2 THEN Path(Repair(<<RandSeg("M", 0), RandSeg("L", 0)>>))
              ELSE [t |-> "seg", v |-> <<FitArc([RandSeg(<<"L", "Q", "C", "A", "M", "Z">>[RandomElement(1..6)], 0) EXCEPT !.s = RandPt(0), !.e = RandPt(1)])>>, w |-> <<1, 1>>]
Init == on = FALSE /\ regs = <<>> /\ hist = <<>>
Next == \/ /\ ~on /\ on' = TRUE
           /\ \E r \in {[q \in 1..R |-> RandReg(q)]} : regs' = r /\ hist' = <<[o |-> [op |-> "init"], regs |-> r]>>
        \/ /\ on /\ Len(hist) <= Depth
           /\ \E a \in {RandOp(0)} : \E b \in {Dressed(a)} : \E o \in {Target(b)} :
                Do(IF Applies(o) THEN o ELSE [o EXCEPT !.op = "copy", !.k = 0, !.y = 1])
Spec == Init /\ [][Next]_vars
\* Registers are values: whatever they hold, it is joined up.
InvJoined == \A q \in 1..Len(regs) : Joined(regs[q].v) /\ Closed(regs[q].v)
Emit == Len(hist) # Depth + 1 \/ PrintT("@@" \o ToJson([h |-> hist]))
=============================================================================
