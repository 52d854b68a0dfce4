---------------------------------- MODULE DOM ----------------------------------
(* D01..D05.  A document is a growing tree: texts are read into a node, single elements are appended
   with element methods, attributes change later.  Nodes are numbered in the order they are added;
   0 is the document.  Everything that can be asked of a node follows from its place.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Colors
CONSTANTS Steps, Most, Show        \* steps of a history, nodes, what is emitted
VARIABLES tag, attrs, kids, up, step, op
vars == <<tag, attrs, kids, up, step, op>>
None == 0 - 1
N == Len(tag)
Known == <<"svg", "g", "defs", "symbol", "marker", "use", "style", "script", "a", "text", "tspan", "path", "line", "rect", "circle",
           "ellipse", "polyline", "polygon", "image", "title", "desc", "metadata", "clipPath", "mask", "switch", "linearGradient", "radialGradient", "pattern">>
Kinds == <<"SVG", "Group", "Defs", "Symbol", "Marker", "Use", "Style", "Script", "Hyperlink", "Text", "TSpan", "Path", "Line", "Rect", "Circle",
           "Ellipse", "Polyline", "Polygon", "Image", "Title", "Desc", "Metadata", "ClipPath", "Mask", "Switch", "LinearGradient", "RadialGradient", "Pattern">>
Unknown == {"?plain", "?upper", "?foreign", "?dashed", "?camel"}
KnownSet == {Known[i] : i \in 1..Len(Known)}
Kind(t) == IF t \in Unknown THEN "Node" ELSE Kinds[CHOOSE i \in 1..Len(Known) : Known[i] = t]
\* ---- attributes: names and values stand for texts, those of presentation are known here
Colors5 == <<"red", "blue", "half", "none", "white", "clear">>
Channels(c) == CASE c = "red" -> <<255, 0, 0, 255>> [] c = "blue" -> <<0, 0, 255, 255>> [] c = "half" -> <<16, 32, 48, 128>> [] c = "white" -> <<255, 255, 255, 255>> [] c = "clear" -> <<0, 0, 0, 0>> [] c = "none" -> <<>>
Opacities == {0, 250, 333, 1000, 500, -500, 1700}
Presentation == {"stroke", "fill", "stroke-opacity", "fill-opacity", "stroke-width", "transform"}
Plain == {"a1", "a2", "a3", "a4", "a5", "a6", "a7", "a8"}
\* attributes an element method also takes by position, in this order
Placed(t) == CASE t = "rect" -> <<"x", "y", "width", "height", "rx", "ry">> [] t = "circle" -> <<"cx", "cy", "r">> [] t = "ellipse" -> <<"cx", "cy", "rx", "ry">>
               [] t = "line" -> <<"x1", "y1", "x2", "y2">> [] t \in {"polyline", "polygon"} -> <<"points">> [] t = "path" -> <<"d">> [] OTHER -> <<>>
Box == {"x", "y", "width", "height"}
\* attributes an element also has as properties: effective values, and its own values
Asked(t) == {Placed(t)[i] : i \in 1..Len(Placed(t))} \union
            (CASE t \in {"mask", "svg", "use"} -> Box [] t \in {"pattern", "image"} -> Box \union {"href"} [] t \in {"text", "tspan"} -> Box \union {"dx", "dy"}
               [] t \in {"a", "script"} -> {"href"}
               [] t = "clipPath" -> {"clipPathUnits"} [] OTHER -> {})
Owned(t) == IF t \in {"svg", "image"} THEN {"viewBox", "preserveAspectRatio"} ELSE {}
Geometry == Box \union {"rx", "ry", "cx", "cy", "r", "x1", "y1", "x2", "y2", "points", "d", "dx", "dy", "href", "viewBox", "preserveAspectRatio", "clipPathUnits"}
Values(nm) == CASE nm \in {"stroke", "fill"} -> {Colors5[i] : i \in 1..6}
                [] nm \in {"stroke-opacity", "fill-opacity"} -> {ToString(k) : k \in Opacities}
                [] nm = "id" -> {"i1", "i2", "i3", "i4"}
                [] nm \in Plain -> {"v1", "v2", "v3", "v4", "v5", "v6", "v7"}
                [] nm \in Geometry -> {"n1", "n2", "n3", "n4", "n5", "n6"}
                [] OTHER -> {"w1", "w2"}
RE(S) == RandomElement(S)
RandNames(x) == CASE Show = "effective" -> TLCEval({nm \in Presentation \union {"a2"} : RE(1..6) = 1})
                  [] Show = "ids" -> TLCEval({nm \in {"id", "a1"} : RE(1..2) = 1})
                  [] Show = "navigation" -> TLCEval({nm \in {"id", "a1"} : RE(1..4) = 1})
                  [] OTHER -> TLCEval({nm \in Presentation \union Plain \union {"id"} : RE(1..5) = 1})
RandGeometry(t) == LET S == Asked(t) \union Owned(t) \union (IF RE(1..2) = 1 THEN Geometry ELSE {})
                       m == RE(2..8) IN
                   IF Show \in {"ids", "navigation"} THEN {} ELSE TLCEval({nm \in S : RE(1..m) = 1})
RandAttrs(t) == LET S == TLCEval(RandNames(t) \union RandGeometry(t)) IN TLCEval([nm \in S |-> RE(Values(nm))])
\* alike siblings are as likely as different ones
RandTag(x) == CASE Show = "navigation" -> RE({"g", "rect", "g", "?plain"})
                [] Show = "effective" -> RE({"g", "g", "svg", "rect", "path", "circle", "text", "line", "polygon", "ellipse", "polyline", "image", "tspan", "?plain", RE({"mask", "pattern", "use", "a", "script", "desc", "title", "clipPath"})})
                [] OTHER -> RE({RE(KnownSet), RE(KnownSet), "g", RE(Unknown)})
\* ---- a text to read: its elements in order, each with its parent among those before, 0 for the top
RECURSIVE RightPath(_, _)
RightPath(lit, k) == IF k = 0 THEN {} ELSE {k} \union RightPath(lit, lit[k].up)
Elem(t, a, u) == [tag |-> t, attrs |-> a, up |-> u]
RECURSIVE Grown(_, _)
Grown(lit, n) == IF Len(lit) >= n THEN lit
                 ELSE LET deep == RE(1..3)
                          path == RightPath(lit, Len(lit))
                          u == IF deep = 1 THEN Len(lit) ELSE RE(path) IN
                      LET t == RandTag(n) IN Grown(TLCEval(Append(lit, Elem(t, RandAttrs(t), u))), n)
RandText(n) == LET t == RE({"svg", RandTag(1)}) IN Grown(<<Elem(t, RandAttrs(t), 0)>>, n)
\* ---- growing
RECURSIVE Attach(_, _, _, _)
Attach(st, lit, base, at) ==       \* st: [tag, attrs, kids, up]
  IF lit = <<>> THEN st
  ELSE LET e == Head(lit)
           p == IF e.up = 0 THEN at ELSE base + e.up
           n == Len(st.tag) + 1 IN
       Attach([tag |-> Append(st.tag, e.tag), attrs |-> Append(st.attrs, e.attrs),
               kids |-> Append([st.kids EXCEPT ![p + 1] = Append(@, n)], <<>>), up |-> Append(st.up, p)], Tail(lit), base, at)
Become(st) == tag' = st.tag /\ attrs' = st.attrs /\ kids' = st.kids /\ up' = st.up
Now == [tag |-> tag, attrs |-> attrs, kids |-> kids, up |-> up]
Read(at, lit) == N + Len(lit) <= Most /\ Become(Attach(Now, lit, N, at)) /\ op' = [do |-> "read", at |-> at, text |-> lit]
\* the first k of the attributes are given by position
Build(at, t, k, a) == N < Most /\ Become(Attach(Now, <<Elem(t, a, 0)>>, N, at))
                      /\ op' = [do |-> "build", at |-> at, text |-> <<Elem(t, a, 0)>>, placed |-> SubSeq(Placed(t), 1, k)]
With(t, k, a) == LET P == {Placed(t)[i] : i \in 1..k} IN TLCEval([nm \in P |-> RE(Values(nm))]) @@ a
Set(n, nm, v) == /\ attrs' = [attrs EXCEPT ![n] = (nm :> v) @@ attrs[n]] /\ UNCHANGED <<tag, kids, up>>
                 /\ op' = [do |-> "set", at |-> n, name |-> nm, value |-> v]
Unset(n, nm) == /\ attrs' = [attrs EXCEPT ![n] = [x \in DOMAIN attrs[n] \ {nm} |-> attrs[n][x]]] /\ UNCHANGED <<tag, kids, up>>
                /\ op' = [do |-> "unset", at |-> n, name |-> nm]
Init == tag = <<>> /\ attrs = <<>> /\ kids = <<<<>>>> /\ up = <<>> /\ step = 0 /\ op = [do |-> "new", at |-> 0]
Moves == IF Show = "effective" THEN <<"read", "build", "set", "set", "set", "unset">> ELSE <<"read", "build", "build", "build", "set", "unset">>
Next ==
  /\ step < Steps /\ step' = step + 1
  /\ IF N = 0 THEN \E n \in {RE(1..8)} : \E lit \in {RandText(n)} : \/ Read(0, lit)
     ELSE \E m \in {Moves[RE(1..Len(Moves))]}, at \in {RE(0..N)}, late \in {RE(1..N)} :
          CASE m = "read" /\ N < Most -> \E n \in {RE(1..4)} : \E lit \in {RandText(IF N + n > Most THEN 1 ELSE n)}, p \in {RE({at, late})} : Read(p, lit)
            [] m = "build" /\ N < Most -> \E r \in {RandTag(1)} : \E t \in {IF r \in Unknown THEN "g" ELSE r} : \E a \in {RandAttrs(t)}, p \in {RE({at, late})} :
                                           \E k \in {RE(0..Len(Placed(t)))} : \E b \in {With(t, k, a)} : Build(p, t, k, b)
            [] m = "unset" /\ DOMAIN attrs[late] \ {"id"} # {} -> \E nm \in {RE(DOMAIN attrs[late] \ {"id"})} : Unset(late, nm)
            [] OTHER -> \E nm \in {RE(IF Show = "effective" THEN Presentation \union Asked(tag[late]) \union Owned(tag[late]) ELSE Presentation \union Plain)} : \E v \in {RE(Values(nm))} : Set(late, nm, v)
Spec == Init /\ [][Next]_vars
\* ---- what a place says
Kids(n) == kids[n + 1]
Up(n) == IF n = 0 THEN None ELSE up[n]
Index(n) == CHOOSE i \in 1..Len(Kids(Up(n))) : Kids(Up(n))[i] = n
NextOf(n) == IF n = 0 \/ Index(n) = Len(Kids(Up(n))) THEN None ELSE Kids(Up(n))[Index(n) + 1]
PrevOf(n) == IF n = 0 \/ Index(n) = 1 THEN None ELSE Kids(Up(n))[Index(n) - 1]
FirstOf(n) == IF Kids(n) = <<>> THEN None ELSE Kids(n)[1]
LastOf(n) == IF Kids(n) = <<>> THEN None ELSE Kids(n)[Len(Kids(n))]
RECURSIVE Line(_)
Line(n) == IF n = 0 THEN <<0>> ELSE <<n>> \o Line(Up(n))         \* the node and its ancestors
RECURSIVE Nearest1(_, _)
Effective(n, nm) == Nearest1(n, nm)
Nearest1(n, nm) == IF n = 0 THEN "-" ELSE IF nm \in DOMAIN attrs[n] THEN attrs[n][nm] ELSE Nearest1(Up(n), nm)
OpacityOf(t) == CHOOSE k \in Opacities : ToString(k) = t
Paint(n, nm) == LET c == Effective(n, nm)
                    o == Effective(n, nm \o "-opacity") IN
  IF c = "-" THEN <<"absent">>
  ELSE IF c = "none" THEN <<"none">>
  ELSE LET x == Channels(c) IN <<"color", <<Sure(x[1]), Sure(x[2]), Sure(x[3]), IF o = "-" THEN Sure(x[4]) ELSE Alpha(OpacityOf(o))>>>>
RECURSIVE Same(_, _)
Same(p, q) == tag[p] = tag[q] /\ attrs[p] = attrs[q] /\ Len(Kids(p)) = Len(Kids(q)) /\ \A i \in 1..Len(Kids(p)) : Same(Kids(p)[i], Kids(q)[i])
Ids == {"i1", "i2", "i3", "i4"}
Holders(i) == {n \in 1..N : "id" \in DOMAIN attrs[n] /\ attrs[n]["id"] = i}
Found(i) == IF Holders(i) = {} THEN None ELSE CHOOSE n \in Holders(i) : \A m \in Holders(i) : m <= n
\* ---- laws
InvTree == /\ Len(kids) = N + 1 /\ Len(up) = N /\ Len(attrs) = N
           /\ \A n \in 1..N : up[n] < n /\ Cardinality({i \in 1..Len(Kids(up[n])) : Kids(up[n])[i] = n}) = 1
           /\ \A p \in 0..N : \A i \in 1..Len(Kids(p)) : up[Kids(p)[i]] = p
InvOrder == \A p \in 0..N : \A i \in 1..Len(Kids(p)) : i = 1 \/ Kids(p)[i - 1] < Kids(p)[i]
InvSiblings == \A n \in 1..N : (NextOf(n) # None => PrevOf(NextOf(n)) = n) /\ (PrevOf(n) # None => NextOf(PrevOf(n)) = n)
                            /\ (NextOf(n) = None) = (LastOf(Up(n)) = n) /\ (PrevOf(n) = None) = (FirstOf(Up(n)) = n)
\* merging the attributes from the top downwards gives the same
RECURSIVE Merged(_)
Merged(n) == IF n = 0 THEN [x \in {} |-> ""] ELSE attrs[n] @@ Merged(Up(n))
InvEffective == \A n \in 1..N : \A nm \in Presentation : LET m == Merged(n) IN Effective(n, nm) = (IF nm \in DOMAIN m THEN m[nm] ELSE "-")
InvSame == \A p, q \in 1..N : Same(p, q) => Same(q, p) /\ (p # q => \A k \in 1..Len(Kids(p)) : Kids(p)[k] # Kids(q)[k])
\* ---- emission
Base == [step |-> step, op |-> op, n |-> N, tag |-> tag, up |-> up, kids |-> kids]
\* a2 is the xlink spelling of href, which wins
Read1(n) == [nm \in Asked(tag[n]) |-> IF nm = "href" /\ Effective(n, "a2") # "-" THEN Effective(n, "a2") ELSE Effective(n, nm)] @@ [nm \in Owned(tag[n]) |-> IF nm \in DOMAIN attrs[n] THEN attrs[n][nm] ELSE "-"]
Table(F(_)) == [n \in 1..N |-> F(n)]
Note == CASE Show = "tree" -> Base @@ [attrs |-> attrs, kind |-> [n \in 1..N |-> Kind(tag[n])]]
          [] Show = "save" -> Base @@ [attrs |-> attrs, twins |-> IF N = 0 THEN {} ELSE {<<p, q>> \in (1..N) \X (1..N) : p < q /\ Same(p, q)}]
          [] Show = "navigation" -> Base @@ [next |-> Table(NextOf), prev |-> Table(PrevOf), first |-> [n \in 1..(N + 1) |-> FirstOf(n - 1)],
                                            last |-> [n \in 1..(N + 1) |-> LastOf(n - 1)], line |-> Table(Line)]
          [] Show = "effective" -> Base @@ [eff |-> [n \in 1..N |-> [nm \in Presentation |-> Effective(n, nm)]], asked |-> Table(Read1),
                                           stroke |-> [n \in 1..N |-> Paint(n, "stroke")], fill |-> [n \in 1..N |-> Paint(n, "fill")]]
          [] OTHER -> Base @@ [found |-> [i \in Ids |-> Found(i)]]
Emit == step > 0 => PrintT("@@" \o ToJson(Note))
================================================================================
