------------------------------ MODULE ElementView ------------------------------
(* D08.  An svg, image or pattern element in an svg element: both have attributes of position and size,
   and a viewBox and preserveAspectRatio, which change step by step.  The inner element's map follows from its
   effective rectangle and its own viewBox; without one of these there is none.                              *)
EXTENDS ViewboxMap
CONSTANTS Steps
VARIABLES kind, own, up, step
all == <<el, vb, par, m, kind, own, up, step>>
RE(S) == RandomElement(S)
Names == <<"x", "y", "width", "height", "viewBox", "preserveAspectRatio", "width", "height", "viewBox">>
Empty == [x \in {} |-> <<>>]
None == [align |-> "-", how |-> "-"]
Given(c) == c.align # "-"
Value(nm, o) == CASE nm \in {"x", "y"} -> RE({0, RE(-9..9), RE(-9..9)}) [] nm \in {"width", "height"} -> RE(Sizes)
                  [] nm = "viewBox" -> TLCEval(RE({<<RE(-9..9), RE(-9..9), RE(Sizes), RE(Sizes)>>, <<0, 0, RE(Sizes), RE(Sizes)>>,
                                                   \* the same size as the element, or at the same place
                                                   <<IF "x" \in DOMAIN o THEN o["x"] ELSE 0, IF "y" \in DOMAIN o THEN o["y"] ELSE 0, RE(Sizes), RE(Sizes)>>,
                                                   <<RE(-9..9), RE(-9..9), IF "width" \in DOMAIN o THEN o["width"] ELSE 5, IF "height" \in DOMAIN o THEN o["height"] ELSE 5>>}))
                  [] OTHER -> RE({x \in Pars : Given(x)})
RECURSIVE Fill(_, _)
Fill(e, names) == IF names = {} THEN e ELSE LET nm == CHOOSE n \in names : TRUE IN Fill(TLCEval((nm :> Value(nm, e)) @@ e), names \ {nm})
Some(k) == {x \in {Names[i] : i \in 1..6} : RE(1..k) = 1}
Eff(o, u, nm) == IF nm \in DOMAIN o THEN o[nm] ELSE IF nm \in DOMAIN u THEN u[nm] ELSE 0
\* ---- the map of the state
Known(o, u) == "viewBox" \in DOMAIN o /\ \A nm \in {"width", "height"} : nm \in DOMAIN o \/ nm \in DOMAIN u
Look(o, u) == IF Known(o, u)
  THEN /\ el' = <<Eff(o, u, "x"), Eff(o, u, "y"), Eff(o, u, "width"), Eff(o, u, "height")>>
       /\ vb' = o["viewBox"] /\ par' = (IF "preserveAspectRatio" \in DOMAIN o THEN o["preserveAspectRatio"] ELSE None)
       /\ m' = Map(el', vb', par')
  ELSE el' = <<>> /\ vb' = <<>> /\ par' = <<>> /\ m' = <<>>
EInit == Init /\ kind = "" /\ own = Empty /\ up = Empty /\ step = 0
Set(o, u) == own' = o /\ up' = u /\ Look(o, u)
Start == step = 0 /\ \E k \in {RE({"svg", "svg", "image", "pattern"})}, s \in {TLCEval(Some(5))}, t \in {TLCEval(Some(3))} :
           kind' = k /\ \E o \in {Fill(Empty, {Names[i] : i \in 1..6} \ s)}, u \in {Fill(Empty, t)} : Set(o, u)
Change == step > 0 /\ UNCHANGED kind /\ \E nm \in {Names[RE(1..9)]}, w \in {RE({"own", "own", "up", "drop", "drop up"})} : \E v \in {Value(nm, own)} :
            CASE w = "own" -> Set((nm :> v) @@ own, up) [] w = "up" -> Set(own, (nm :> v) @@ up)
              [] w = "drop" -> Set([x \in DOMAIN own \ {nm} |-> own[x]], up) [] OTHER -> Set(own, [x \in DOMAIN up \ {nm} |-> up[x]])
ENext == step < Steps /\ step' = step + 1 /\ (Start \/ Change)
ESpec == EInit /\ [][ENext]_all
\* what the outer element or its own viewBox says of preserveAspectRatio never counts
InvOwn == el # <<>> => vb = own["viewBox"] /\ (Given(par) => "preserveAspectRatio" \in DOMAIN own)
EEmit == step > 0 => PrintT("@@" \o ToJson([step |-> step, kind |-> kind, own |-> own, up |-> up, m |-> m]))
=============================================================================
