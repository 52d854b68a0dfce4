-------------------------------- MODULE Images ---------------------------------
(* D06.  What an image embeds: its link may be a data URL, whose base64 text is built here digit by digit
   and decoded again; and the box of its pixels under the transform that holds for it.              *)
EXTENDS Affine, Json, FiniteSets
CONSTANTS Size, Show
VARIABLES bytes, text, link, size, fs, m
vars == <<bytes, text, link, size, fs, m>>
\* ---- base64: three bytes are four digits of 0..63, the rest is padded
Pad == 64
Group(b) == LET x == b[1]
                y == IF Len(b) > 1 THEN b[2] ELSE 0
                z == IF Len(b) > 2 THEN b[3] ELSE 0 IN
  <<x \div 4, ((x % 4) * 16) + (y \div 16),
    IF Len(b) > 1 THEN ((y % 16) * 4) + (z \div 64) ELSE Pad, IF Len(b) > 2 THEN z % 64 ELSE Pad>>
RECURSIVE Encode(_)
Encode(b) == IF b = <<>> THEN <<>> ELSE Group(SubSeq(b, 1, IF Len(b) < 3 THEN Len(b) ELSE 3)) \o Encode(SubSeq(b, 4, Len(b)))
\* back: six bits a digit, whole bytes count
RECURSIVE Bits(_, _), Whole(_), Value(_)
Bits(v, n) == IF n = 0 THEN <<>> ELSE Bits(v \div 2, n - 1) \o <<v % 2>>
Value(s) == IF s = <<>> THEN 0 ELSE (2 * Value(SubSeq(s, 1, Len(s) - 1))) + s[Len(s)]
RECURSIVE AllBits(_)
AllBits(t) == IF t = <<>> THEN <<>> ELSE (IF Head(t) = Pad THEN <<>> ELSE Bits(Head(t), 6)) \o AllBits(Tail(t))
Whole(s) == IF Len(s) < 8 THEN <<>> ELSE <<Value(SubSeq(s, 1, 8))>> \o Whole(SubSeq(s, 9, Len(s)))
Decode(t) == Whole(AllBits(t))
\* ---- links: of the image or of an ancestor, plain or with xlink prefix; "-" where there is none
Kinds == {"png", "jpg", "jpeg", "svg+xml"}
Others == {"gif", "PNG", "file", "fragment", "empty", "percent", "html", "upper", "short"}
RandKind(x) == IF RandomElement(1..3) = 1 THEN RandomElement(Others) ELSE RandomElement(Kinds)
RandLink(x) == [n \in {"xlink", "plain", "upxlink", "upplain"} |-> IF RandomElement(1..(IF n = "plain" THEN 2 ELSE 4)) = 1 THEN RandKind(n) ELSE "-"]
Nearest(a, b) == IF a # "-" THEN a ELSE b
Wins(l) == Nearest(Nearest(l["xlink"], l["upxlink"]), Nearest(l["plain"], l["upplain"]))
\* the link that wins, by name: it carries the text, others carry another
Where(l) == CASE l["xlink"] # "-" -> "xlink" [] l["upxlink"] # "-" -> "upxlink" [] l["plain"] # "-" -> "plain" [] l["upplain"] # "-" -> "upplain" [] OTHER -> "-"
HasData(l) == Wins(l) \in Kinds
\* ---- boxes
Corners == <<<<0, 0, 1>>, <<size[1], 0, 1>>, <<size[1], size[2], 1>>, <<0, size[2], 1>>>>
Mapped == [i \in 1..4 |-> Image(IF size = <<>> THEN <<0, 0, 1>> ELSE Corners[i], m)]
Written(o) == [o EXCEPT !.at = IF o.op \notin {"rotate", "skew", "skew_x", "skew_y"} THEN <<>> ELSE IF Len(@) = 1 THEN <<@[1], <<2, 1>>>> ELSE @]
Init == bytes = <<>> /\ text = <<>> /\ link = RandLink(0) /\ size \in {RandomElement({<<>>, <<5, 6>>, <<1, 1>>, <<12, 0>>, <<640, 3>>})} /\ fs = <<>> /\ m = Id
Byte(x) == RandomElement({RandomElement(0..255), RandomElement(0..255), RandomElement({0, 255, 251, 62, 63})})
Extend == /\ Show = "data" /\ Len(bytes) < Size
       /\ \E b \in {Byte(0)} : bytes' = Append(bytes, b) /\ text' = Encode(Append(bytes, b))
       /\ link' = TLCEval(RandLink(0)) /\ UNCHANGED <<size, fs, m>>
Apply1 == /\ Show = "box" /\ Len(fs) < Size
        /\ \E op \in {RandomElement(OpNames)} : \E o \in {RandOp(op)} : \E f \in {TLCEval(Written(o))} :
             /\ Fits(Mul(Elem(f), m), 5000, 500) /\ fs' = Append(fs, f) /\ m' = Mul(Elem(f), m)
        /\ size' \in {RandomElement({<<>>, <<5, 6>>, <<1, 1>>, <<12, 0>>, <<640, 3>>, <<RandomElement(1..99), RandomElement(1..99)>>})}
        /\ UNCHANGED <<bytes, text, link>>
Next == Extend \/ Apply1
Spec == Init /\ [][Next]_vars
\* ---- laws
InvBack == Decode(text) = bytes
InvLength == Len(text) % 4 = 0 /\ Len(text) = 4 * ((Len(bytes) + 2) \div 3)
InvPad == \A i \in 1..Len(text) : text[i] = Pad => i > Len(text) - 2 /\ (i < Len(text) => text[i + 1] = Pad)
\* a box of unknown size is a point; opposite corners have the same middle
InvMiddle == size # <<>> => LET p == Mapped
                                Mid(a, b) == <<(a[1] * b[3]) + (b[1] * a[3]), (a[2] * b[3]) + (b[2] * a[3]), a[3] * b[3]>>
                                x == Mid(p[1], p[3])
                                y == Mid(p[2], p[4]) IN x[1] * y[3] = y[1] * x[3] /\ x[2] * y[3] = y[2] * x[3]
Emit == PrintT("@@" \o ToJson(IF Show = "data" THEN [bytes |-> bytes, text |-> text, link |-> link, at |-> Where(link), data |-> HasData(link)]
                              ELSE [size |-> size, fs |-> fs, corners |-> Mapped]))
=============================================================================
