-------------------------------- MODULE Angles --------------------------------
(* V05.  An angle is a whole number of 1/360000 turns; every unit measures it exactly.  A history
   carries one angle from unit to unit, adding whole turns on the way.                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Steps
VARIABLES n, other, path
vars == <<n, other, path>>
Turn == 360000
Per(u) == CASE u \in {"deg", ""} -> 1000 [] u = "grad" -> 900 [] u = "turn" -> Turn [] u = "%" -> 3600
Units == {"deg", "grad", "rad", "turn", "%", ""}
Orthogonal(x) == x % (Turn \div 4) = 0
SameWay(x, y) == (x - y) % Turn = 0
Normal(x) == x % Turn
Positive(x) == IF x < 0 THEN x % Turn ELSE x
RE(S) == RandomElement(S)
Some(k) == RE({Turn * RE(-40..40), 1000 * RE(-3600..3600), 900 * RE(-4000..4000), (Turn \div 4) * RE(-400..400), (Turn \div 8) * RE(-100..100),
               RE(-1000000..1000000), RE(-20..20), (Turn \div 12) * RE(-60..60)})
Init == n = 0 /\ other = 0 /\ path = <<>>
Begin == path = <<>> /\ \E a \in {Some(1)} : \E b \in {RE({Some(2), a + (Turn * RE(-5..5)), -a, a + RE({-1, 1}), a + (Turn \div 2), a + (Turn \div 4)})} :
         n' = a /\ other' = b /\ path' = <<RE(Units)>>
\* re-expressed in another unit, as a number or a text, perhaps some turns further
Carry == path # <<>> /\ Len(path) < Steps /\ \E u \in {RE(Units)}, k \in {RE({0, 0, 1, -1, 3})} :
         n' = n + (k * Turn) /\ other' = other /\ path' = Append(path, u)
Next == Begin \/ Carry
Spec == Init /\ [][Next]_vars
Note == [n |-> n, other |-> other, unit |-> path[Len(path)], first |-> Len(path) = 1,
         normal |-> Normal(n), positive |-> Positive(n), orthogonal |-> Orthogonal(n), same |-> SameWay(n, other)]
InvNormal == Normal(n) \in 0..(Turn - 1) /\ SameWay(n, Normal(n)) /\ Orthogonal(n) = Orthogonal(Normal(n))
InvPositive == Positive(n) >= 0 /\ SameWay(n, Positive(n)) /\ (n < Turn => Positive(n) < Turn)
InvOrthogonal == Orthogonal(n) = (SameWay(4 * n, 0))
InvUnits == \A u \in Units \ {"rad"} : Turn % Per(u) = 0
Emit == path # <<>> => PrintT("@@" \o ToJson(Note))
===============================================================================
