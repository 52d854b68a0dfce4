------------------------------- MODULE MatrixOps -------------------------------
(* T01.  Two matrices under any history of operations, and a point that is carried along.          *)
EXTENDS Affine, Json
CONSTANTS Steps
VARIABLES ms,     \* the two matrices
          hist, img
vars == <<ms, hist, img>>
Probe == <<3, -2, 1>>
Init == ms = <<Id, Id>> /\ hist = <<>> /\ img = <<>>
Fit(m) == Fits(m, 3000, 400)
\* [kind, which, o] -> the matrices after
Done(kind, which, o, new) ==
  /\ Fit(new[1]) /\ Fit(new[2]) /\ ms' = new
  /\ hist' = Append(hist, [kind |-> kind, which |-> which, o |-> o, ms |-> new,
                           p |-> Image(Probe, new[1]), v |-> Image(Probe, Linear(new[1])),
                           inv |-> IF Det(new[1]) # 0 THEN Image(Probe, Inv(new[1])) ELSE <<>>])
  /\ img' = Image(Probe, new[1])
Elementary == \E w \in {RandomElement(1..2)} : \E op \in {RandomElement(OpNames)} : \E o \in {RandOp(op)} :
              \E side \in {RandomElement({"post", "pre", "post_text", "pre_text"})} :
   Done(side, w, o, [ms EXCEPT ![w] = IF side \in {"post", "post_text"} THEN Mul(@, Elem(o)) ELSE Mul(Elem(o), @)])
None == [op |-> "none", args |-> <<>>, at |-> <<>>]
Set == \E w \in {RandomElement(1..2)} : \E op \in {RandomElement(OpNames)} : \E o \in {RandOp(op)} :
         Done("set", w, [o EXCEPT !.at = <<>>], [ms EXCEPT ![w] = Plain(o)])
Times2 == \E w \in {RandomElement(1..2)} : \E k \in {RandomElement({"imul", "mul", "rmul", "imatmul", "matmul", "self", "post_cat", "pre_cat"})} :
   Done(k, w, None, [ms EXCEPT ![w] = CASE k = "self" -> Mul(@, @)
                                        [] k \in {"rmul", "pre_cat"} -> Mul(ms[3 - w], @)
                                        [] OTHER -> Mul(@, ms[3 - w])])
Invert == \E w \in {RandomElement(1..2)} : \E k \in {RandomElement({"inverse", "invert"})} :
   Det(ms[w]) # 0 /\ Done(k, w, None, [ms EXCEPT ![w] = Inv(@)])
Reset == \E w \in {RandomElement(1..2)} : Done("reset", w, None, [ms EXCEPT ![w] = Id])
CopyTo == \E w \in {RandomElement(1..2)} : \E k \in {RandomElement({"copy", "vector", "construct"})} :
   Done(k, w, None, [ms EXCEPT ![w] = IF k = "vector" THEN Linear(ms[3 - w]) ELSE ms[3 - w]])
Step == Len(hist) < Steps /\
   \E k \in {RandomElement(1..12)} :
     CASE k <= 7 -> Elementary [] k = 8 -> Set [] k = 9 -> Times2 [] k = 10 -> Invert
       [] k = 11 -> IF RandomElement(1..4) = 1 THEN Reset ELSE CopyTo [] OTHER -> Times2
Spec == Init /\ [][Step]_vars
\* ---- the laws
InvGroup == \A w \in 1..2 : LET m == ms[w] IN
   /\ Mul(m, Id) = m /\ Mul(Id, m) = m
   /\ Det(m) # 0 => (Fits(Inv(m), 20000, 20000) => Mul(m, Inv(m)) = Id /\ Mul(Inv(m), m) = Id)
InvAssoc == LET e == Elem([op |-> "rotate", args |-> <<Units[5]>>, at |-> <<Halves(3)>>]) IN
   Mul(Mul(ms[1], e), ms[2]) = Mul(ms[1], Mul(e, ms[2]))
\* The product acts as one map after the other.
InvAct == Image(Image(Probe, ms[1]), ms[2]) = Image(Probe, Mul(ms[1], ms[2]))
Emit == Len(hist) = Steps => PrintT("@@" \o ToJson(hist))
=============================================================================
