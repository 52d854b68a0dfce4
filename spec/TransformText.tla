----------------------------- MODULE TransformText -----------------------------
(* T02.  A transform text is read function by function: each new function is applied before all that
   were read so far.                                                                                *)
EXTENDS Affine, Json
CONSTANTS Size
VARIABLES fs, m
vars == <<fs, m>>
Init == fs = <<>> /\ m = Id
\* Some scales are zero.
Flat(o) == IF o.op \in {"scale", "scale_x", "scale_y"} /\ RandomElement(1..6) = 1
           THEN [o EXCEPT !.args = [i \in 1..Len(@) |-> IF RandomElement(1..2) = 1 THEN Zero ELSE @[i]]] ELSE o
\* Centres are only written for rotations and skews, and then with both coordinates.
Written(o) == [o EXCEPT !.at = IF o.op \notin {"rotate", "skew", "skew_x", "skew_y"} THEN <<>> ELSE IF Len(@) = 1 THEN <<@[1], <<2, 1>>>> ELSE @]
Read == Len(fs) < Size /\ \E op \in {RandomElement(OpNames)} : \E o \in {RandOp(op)} :
          \E f \in {TLCEval(Written(TLCEval(Flat(o))))} :
          /\ Fits(Mul(Elem(f), m), 10000, 1000)
          /\ fs' = Append(fs, f) /\ m' = Mul(Elem(f), m)
Spec == Init /\ [][Read]_vars
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN Id ELSE Mul(Product(Tail(s)), Elem(s[1]))
\* The rightmost first; and a list is the product of its parts wherever it is split.
InvOrder == m = Product(fs)
InvSplit == \A k \in 1..Len(fs) : Mul(Product(SubSeq(fs, k, Len(fs))), Product(SubSeq(fs, 1, k - 1))) = m
\* each function does to points what it says
InvAct == fs # <<>> => LET f == fs[Len(fs)]
                           p == <<3, -2, 1>> IN
   f.op = "translate" => Image(p, Elem(f)) = Image(Image(p, Plain([f EXCEPT !.op = "translate_x"])), Move2(Zero, IF Len(f.args) = 1 THEN Zero ELSE f.args[2]))
Emit == Len(fs) = Size => PrintT("@@" \o ToJson([fs |-> fs, m |-> m]))
=============================================================================
