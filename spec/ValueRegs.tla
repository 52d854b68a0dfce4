------------------------------ MODULE ValueRegs ------------------------------
(* Points, matrices, colors, lengths and the segments made of points are values: nine registers,
   and operations which write a new value into one of them or change one in place.
   Registers: 1-2 points, 3-4 matrices, 5-6 colors (r,g,b,a), 7-8 lengths (in one unit), 9 a line.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES regs, hist, on
vars == <<regs, hist, on>>
Kind(q) == <<"P", "P", "M", "M", "C", "C", "U", "U", "S">>[q]
Mul(m, s) == << s[1]*m[1] + s[3]*m[2], s[2]*m[1] + s[4]*m[2], s[1]*m[3] + s[3]*m[4], s[2]*m[3] + s[4]*m[4],
                s[1]*m[5] + s[3]*m[6] + s[5], s[2]*m[5] + s[4]*m[6] + s[6] >>     \* m first, then s
Act(m, p) == <<m[1]*p[1] + m[3]*p[2] + m[5], m[2]*p[1] + m[4]*p[2] + m[6]>>
Det(m) == m[1]*m[4] - m[2]*m[3]
Inv(m) == LET d == Det(m) IN <<m[4]*d, -m[2]*d, -m[3]*d, m[1]*d, (m[3]*m[6] - m[5]*m[4])*d, (m[2]*m[5] - m[1]*m[6])*d>>
Crimp(n) == IF n < 0 THEN 0 ELSE IF n > 255 THEN 255 ELSE n
Abs(n) == IF n < 0 THEN -n ELSE n
Two(s, k) == <<s[2*k - 1], s[2*k]>>
Making == [P |-> {"copy", "ctor", "add", "sub", "mulm", "mulc", "addpair", "rsubpair", "mulk"},
           M |-> {"copy", "ctor", "mul", "matmul", "inv", "vector"},
           C |-> {"copy", "ctor", "abs"},
           U |-> {"copy", "ctor", "add", "sub", "mulk", "neg", "abs"},
           S |-> {"copy", "line", "mulm"}]
Inplace == [P |-> {"iadd", "isub", "imulm", "set1", "set2", "meet", "imulk"},
            M |-> {"imul", "imatmul", "set1", "set6", "reset", "iinv", "pret", "posts"},
            C |-> {"red", "green", "blue", "alpha", "blend"},
            U |-> {"iadd", "isub", "imulk"},
            S |-> {"poke1", "poke2", "imulm"}]
\* o: [op, d, x, y, n, t] with t the type of the registers d and x; y of that type, or the operand's.
Value(o) ==
  LET x == regs[o.x]  y == regs[o.y]  n == o.n IN
  CASE o.op \in {"copy", "ctor"} -> x
    [] o.op \in {"add", "iadd"} -> [i \in DOMAIN x |-> x[i] + y[i]]
    [] o.op \in {"sub", "isub"} -> [i \in DOMAIN x |-> x[i] - y[i]]
    [] o.op \in {"mulm", "imulm"} -> IF o.t = "S" THEN Act(y, Two(x, 1)) \o Act(y, Two(x, 2)) ELSE Act(y, x)
    [] o.op = "mulc" -> <<x[1]*y[1] - x[2]*y[2], x[1]*y[2] + x[2]*y[1]>>
    [] o.op = "addpair" -> <<x[1] + n[1], x[2] + n[2]>>
    [] o.op = "rsubpair" -> <<n[1] - x[1], n[2] - x[2]>>
    [] o.op \in {"mulk", "imulk"} -> [i \in DOMAIN x |-> x[i] * n[1]]
    [] o.op = "set1" -> [x EXCEPT ![1] = n[1]]
    [] o.op = "set2" -> [x EXCEPT ![2] = n[1]]
    [] o.op = "set6" -> [x EXCEPT ![6] = n[1]]
    [] o.op = "meet" -> y
    [] o.op \in {"mul", "matmul", "imul", "imatmul"} -> Mul(x, y)
    [] o.op \in {"inv", "iinv"} -> Inv(x)
    [] o.op = "vector" -> [x EXCEPT ![5] = 0, ![6] = 0]
    [] o.op = "reset" -> <<1, 0, 0, 1, 0, 0>>
    [] o.op = "pret" -> Mul(<<1, 0, 0, 1, n[1], n[2]>>, x)
    [] o.op = "posts" -> Mul(x, <<n[1], 0, 0, n[2], 0, 0>>)
    [] o.op = "abs" -> IF o.t = "C" THEN [x EXCEPT ![4] = 255] ELSE [x EXCEPT ![1] = Abs(@)]
    [] o.op = "neg" -> [x EXCEPT ![1] = -@]
    [] o.op = "red" -> [x EXCEPT ![1] = Crimp(n[1])]
    [] o.op = "green" -> [x EXCEPT ![2] = Crimp(n[1])]
    [] o.op = "blue" -> [x EXCEPT ![3] = Crimp(n[1])]
    [] o.op = "alpha" -> [x EXCEPT ![4] = Crimp(n[1])]
    [] o.op = "blend" -> y
    [] o.op = "line" -> regs[1] \o regs[2]
    [] o.op = "poke1" -> [x EXCEPT ![1] = @ + n[1], ![2] = @ + n[2]]
    [] o.op = "poke2" -> [x EXCEPT ![3] = @ + n[1], ![4] = @ + n[2]]
Small(x) == \A i \in DOMAIN x : Abs(x[i]) < 10000
Applies(o) == /\ o.op \in {"inv", "iinv"} => Det(regs[o.x]) \in {1, -1}
              /\ o.op = "blend" => regs[o.y][4] = 255
              /\ Small(regs[o.x]) /\ Small(regs[o.y])
RandPair(u) == <<RandomElement(-9..9), RandomElement(-9..9)>>
RandReg(q) == CASE Kind(q) = "P" -> RandPair(0)
                [] Kind(q) = "M" -> <<<<1,0,0,1>>, <<0,1,-1,0>>, <<2,1,1,1>>, <<1,0,3,1>>, <<2,0,0,-1>>>>[RandomElement(1..5)] \o RandPair(1)
                [] Kind(q) = "C" -> [i \in 1..4 |-> IF i = 4 THEN RandomElement({255, 255, 7}) ELSE RandomElement(0..255)]
                [] Kind(q) = "U" -> <<RandomElement(1..50)>>
                [] OTHER -> RandPair(0) \o RandPair(1)
Of(t) == {q \in 1..9 : Kind(q) = t}
RandOp(u) ==
  LET t == RandomElement({"P", "M", "C", "U", "S", "P", "M"})
      make == RandomElement(1..2) = 1
      op == RandomElement(IF make THEN Making[t] ELSE Inplace[t])
      x == RandomElement(Of(t)) IN
  [t |-> t, op |-> op, x |-> x, d |-> IF make THEN RandomElement(Of(t)) ELSE x,
   y |-> IF op \in {"mulm", "imulm"} THEN RandomElement(3..4) ELSE RandomElement(Of(t)),
   n |-> IF t = "C" THEN <<RandomElement(-20..280), 0>> ELSE RandPair(0)]
Do(o) == LET r == [regs EXCEPT ![o.d] = Value(o)] IN
         regs' = r /\ on' = on /\ hist' = Append(hist, [o |-> o, regs |-> r])
Init == on = FALSE /\ regs = <<>> /\ hist = <<>>
Next == \/ /\ ~on /\ on' = TRUE
           /\ \E r \in {[q \in 1..9 |-> RandReg(q)]} : regs' = r /\ hist' = <<[o |-> [op |-> "init"], regs |-> r]>>
        \/ /\ on /\ Len(hist) <= Depth
           /\ \E o \in {RandOp(0)} : Do(IF Applies(o) THEN o ELSE [o EXCEPT !.op = "copy"])
Spec == Init /\ [][Next]_vars
\* An operation writes one register of the kind it is for, and keeps its shape.
InvShape == \A q \in 1..Len(regs) : Len(regs[q]) = [P |-> 2, M |-> 6, C |-> 4, U |-> 1, S |-> 4][Kind(q)]
InvOne == Len(hist) < 2 \/ \A q \in 1..9 : q = hist[Len(hist)].o.d \/ regs[q] = hist[Len(hist) - 1].regs[q]
InvInverse == on => \A q \in 3..4 : (Small(regs[q]) /\ Det(regs[q]) \in {1, -1}) => Mul(regs[q], Inv(regs[q])) = <<1, 0, 0, 1, 0, 0>>
Emit == Len(hist) # Depth + 1 \/ PrintT("@@" \o ToJson([h |-> hist]))
=============================================================================
