------------------------------ MODULE PathText ------------------------------
(* Path data as text: separators, numbers, flags and command letters, read character by
   character.  Parse(t) gives the commands up to the end of the text or the first error:
     st "ok"    the whole text is well formed
        "err"   malformed; cmds are the complete argument groups before the error
        "open"  not decided here (no initial moveto; a closepath in place of control points) *)
EXTENDS PathData, TLC

Sep     == {" ", ",", "\t", "\n", "\r", "\f"}
DigitOf == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
             CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
               [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]
Digits  == DOMAIN DigitOf
Letter  == {"M","m","L","l","H","h","V","v","C","c","S","s","Q","q","T","t","A","a","Z","z"}

RECURSIVE SkipSep(_, _)
SkipSep(t, p) == IF p <= Len(t) /\ t[p] \in Sep THEN SkipSep(t, p + 1) ELSE p
RECURSIVE DigitsEnd(_, _)
DigitsEnd(t, p) == IF p <= Len(t) /\ t[p] \in Digits THEN DigitsEnd(t, p + 1) ELSE p

\* value of the digits t[i..j-1]
RECURSIVE IntOf(_, _, _, _)
IntOf(t, i, j, acc) == IF i >= j THEN acc ELSE IntOf(t, i + 1, j, acc * 10 + DigitOf[t[i]])

(* ---- decimals <<m, e>> = m * 10^e, m without trailing zeros, zero is <<0, 0>> ------------- *)
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
RECURSIVE DropZeros(_, _)
DropZeros(m, e) == IF m = 0 THEN <<0, 0>>
                   ELSE IF m % 10 = 0 THEN DropZeros(m \div 10, e + 1) ELSE <<m, e>>
RECURSIVE FirstSig(_, _)   \* skips leading zeros of a digit sequence
FirstSig(d, i) == IF i <= Len(d) /\ d[i] = "0" THEN FirstSig(d, i + 1) ELSE i
RECURSIVE LastSig(_, _)
LastSig(d, i) == IF i >= 1 /\ d[i] = "0" THEN LastSig(d, i - 1) ELSE i
Decimal(neg, d, e) ==
  LET a == FirstSig(d, 1)  b == LastSig(d, Len(d))
      m == IntOf(d, a, b + 1, 0) IN
  IF a > Len(d) THEN <<0, 0>> ELSE <<IF neg THEN -m ELSE m, e + (Len(d) - b)>>
SigLen(d) == LET n == LastSig(d, Len(d)) - FirstSig(d, 1) + 1 IN IF n < 0 THEN 0 ELSE n
\* A number of more digits than this specification's integers have: its first nine significant
\* digits, rounded, as a triple <<m, e, 1>>; <<1, 9999, 1>> stands for any exponent of four digits.
Long(neg, d, e) ==
  LET a == FirstSig(d, 1)
      up == IF DigitOf[d[a + 9]] >= 5 THEN 1 ELSE 0
      v == DropZeros(IntOf(d, a, a + 9, 0) + up, e + (Len(d) - a - 8)) IN
  <<IF neg THEN -v[1] ELSE v[1], v[2], 1>>
\* Its value to nine digits; nothing if it is below 10^-10 (what is left of cancelled coordinates).
RECURSIVE DigitCount(_)
DigitCount(n) == IF n < 10 THEN 1 ELSE 1 + DigitCount(n \div 10)
Settle(v) == IF v[2] + DigitCount(AbsI(v[1])) <= -10 THEN <<0, 0>> ELSE <<v[1], v[2]>>
\* m * 10^e in units of 10^-k; Tame: it is an integer of moderate size.
Tame(v, k) == v[1] = 0 \/ (Len(v) = 2 /\ v[2] + k >= 0 /\ v[2] + k <= 6 /\ AbsI(v[1]) < 1000000
                           /\ AbsI(v[1]) < 10000000 \div Pow10(v[2] + k))
Scaled(v, k) == LET x == v[2] + k IN
                IF x >= 0 THEN v[1] * Pow10(x)
                ELSE v[1] \div Pow10(-x)
\* An integer in units of 10^-k as a decimal.
ToDecimal(n, k) == LET d == DropZeros(AbsI(n), -k) IN <<IF n < 0 THEN -d[1] ELSE d[1], d[2]>>

(* ---- numbers and flags: [ok, p |-> position after, v |-> value] --------------------------- *)
Fail(p) == [ok |-> FALSE, p |-> p, v |-> <<0, 0>>]
NumberAt(t, p) ==
  LET signed == p <= Len(t) /\ t[p] \in {"+", "-"}
      i == IF signed THEN p + 1 ELSE p
      j == DigitsEnd(t, i)
      frac == j < Len(t) /\ t[j] = "." /\ t[j + 1] \in Digits
      k == IF frac THEN DigitsEnd(t, j + 1) ELSE j
      d == IF frac THEN SubSeq(t, i, j - 1) \o SubSeq(t, j + 1, k - 1) ELSE SubSeq(t, i, j - 1)
      xs == IF k < Len(t) /\ t[k] \in {"e", "E"} /\ t[k + 1] \in {"+", "-"} THEN k + 2 ELSE k + 1
      hasx == k <= Len(t) /\ t[k] \in {"e", "E"} /\ xs <= Len(t) /\ t[xs] \in Digits
      xe == IF hasx THEN DigitsEnd(t, xs) ELSE k
      far == hasx /\ xe - xs > 3
      neg == signed /\ t[p] = "-"
  IN IF p > Len(t) \/ d = <<>> THEN Fail(p)
     ELSE [ok |-> TRUE, p |-> xe,
           v |-> IF far THEN <<1, 9999, 1>>
                 ELSE LET e == (IF hasx THEN (IF t[xs - 1] = "-" THEN -1 ELSE 1) * IntOf(t, xs, xe, 0) ELSE 0)
                               - (IF frac THEN k - j - 1 ELSE 0) IN
                      IF SigLen(d) > 9 THEN Long(neg, d, e) ELSE Decimal(neg, d, e)]
FlagAt(t, p) == IF p <= Len(t) /\ t[p] \in {"0", "1"}
                THEN [ok |-> TRUE, p |-> p + 1, v |-> <<DigitOf[t[p]], 0>>] ELSE Fail(p)

(* ---- one argument group ------------------------------------------------------------------
   [st |-> "full" | "cut" | "err" | "open", p, n]                                            *)
RECURSIVE Group(_, _, _, _)
Group(t, p, u, acc) ==
  LET j == Len(acc) + 1
      q == SkipSep(t, p)
      r == IF u = "A" /\ j \in {4, 5} THEN FlagAt(t, q) ELSE NumberAt(t, q)
  IN IF Len(acc) = Arity(u) THEN [st |-> "full", p |-> p, n |-> acc]
     ELSE IF r.ok THEN Group(t, r.p, u, Append(acc, r.v))
     ELSE IF q <= Len(t) /\ t[q] \in {"z", "Z"} /\ u \in {"L", "T", "Q", "S", "C"} /\ Len(acc) % 2 = 0
          THEN [st |-> IF Len(acc) = Arity(u) - 2 THEN "cut" ELSE "open", p |-> q, n |-> acc]
     ELSE IF q <= Len(t) /\ t[q] \in {"z", "Z"} /\ u = "A" /\ Len(acc) = 5
          THEN [st |-> "cut", p |-> q, n |-> acc]
     ELSE [st |-> "err", p |-> q, n |-> acc]

(* ---- commands ------------------------------------------------------------------------------ *)
RECURSIVE ParseFrom(_, _, _)
RECURSIVE GroupsFrom(_, _, _, _)
\* After a complete group: another group if a number follows, else the next command.
GroupsFrom(t, p, c, acc) ==
  LET g == Group(t, p, Upper(c), <<>>) IN
  CASE g.st = "err"  -> [st |-> "err", cmds |-> acc]
    [] g.st = "open" -> [st |-> "open", cmds |-> acc]
    [] g.st = "cut"  -> ParseFrom(t, g.p, Append(acc, [c |-> c, n |-> g.n, z |-> TRUE]))
    [] OTHER -> LET acc2 == Append(acc, [c |-> c, n |-> g.n, z |-> FALSE]) IN
                IF NumberAt(t, SkipSep(t, g.p)).ok
                THEN GroupsFrom(t, g.p, Continue(c), acc2)
                ELSE ParseFrom(t, g.p, acc2)
ParseFrom(t, p, acc) ==
  LET q == SkipSep(t, p) IN
  IF q > Len(t) THEN [st |-> "ok", cmds |-> acc]
  ELSE IF t[q] \notin Letter THEN [st |-> "err", cmds |-> acc]
  ELSE IF t[q] \in {"z", "Z"}
       THEN ParseFrom(t, q + 1, Append(acc, [c |-> t[q], n |-> <<>>, z |-> FALSE]))
  ELSE GroupsFrom(t, q + 1, t[q], acc)
Parse(t) ==
  LET q == SkipSep(t, 1) IN
  IF q <= Len(t) /\ t[q] \notin {"M", "m"} THEN [st |-> "open", cmds |-> <<>>]
  ELSE ParseFrom(t, q, <<>>)

TameCmds(cmds, k) == \A j \in 1..Len(cmds) : \A i \in 1..Len(cmds[j].n) :
    Tame(cmds[j].n[i], IF Upper(cmds[j].c) = "A" /\ i \in {3, 4, 5} THEN 0 ELSE k)
\* Commands with their numbers as integers in units of 10^-k (rotation and flags as integers).
Ints(cmd, k) == [c |-> cmd.c, z |-> cmd.z,
                 n |-> [i \in 1..Len(cmd.n) |->
                          Scaled(cmd.n[i], IF Upper(cmd.c) = "A" /\ i \in {3, 4, 5} THEN 0 ELSE k)]]
Drawn(cmds, k) == Interp([i \in 1..Len(cmds) |-> Ints(cmds[i], k)])

(* ---- a segment of the specification against an observed one ---------------------------------
   An observed arc is <<rx, ry, rotation, large, sweep, straight, dot>>.  Whether its radii are
   large enough is judged by bounds that hold for every rotation and need no large products.     *)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
ArcBound(g) ==
  LET dx == AbsI(g.e[1] - g.s[1])  dy == AbsI(g.e[2] - g.s[2]) IN
  CASE g.s = g.e -> "dot"
    [] g.a[1] = 0 \/ g.a[2] = 0 -> "line"
    [] 2 * Min2(g.a[1], g.a[2]) > dx + dy -> "full"
    [] OTHER -> "fit"
SameTurn(a, b) == (a - b) % 180 = 0
BadInt == 2147483647   \* an observed number that is no integer in these units
ArcAgrees(g, o, spelling) ==
  LET c == ArcBound(g) IN
  CASE c = "dot"  -> o[7]
    [] ~spelling /\ ~o[6] /\ (o[1] = BadInt \/ o[2] = BadInt) -> o[5] = g.a[5]
    [] c = "line" -> o[6]
    [] c = "full" -> /\ o[1] = g.a[1] /\ o[2] = g.a[2] /\ o[4] = g.a[4] /\ o[5] = g.a[5]
                     /\ (g.a[1] = g.a[2] \/ SameTurn(o[3], g.a[3]))
    [] OTHER      -> o[5] = g.a[5]
SegAgrees(g, o, spelling) ==
  /\ g.k = o.k /\ g.e = o.e /\ g.c = o.c
  /\ spelling => g.r = o.r
  /\ g.k = "A" => ArcAgrees(g, o.a, spelling)
\* The first start is not part of the text.
Agrees(gs, os, spelling) ==
  /\ Len(gs) = Len(os)
  /\ \A i \in 1..Len(gs) : SegAgrees(gs[i], os[i], spelling) /\ (i = 1 \/ gs[i].s = os[i].s)
=============================================================================
