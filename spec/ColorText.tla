------------------------------- MODULE ColorText -------------------------------
(* V01.  A color is written down in some notation; what it denotes is four channels, each an exact
   rational, which the stored 8 bit channel must be next to.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Keywords, Colors
CONSTANTS Short       \* TRUE: all 4096 colors of three digits
VARIABLES note
vars == <<note>>
RR(a, b) == RandomElement(a..b)
Chan(x) == RandomElement({RR(0, 255), RR(0, 255), 0, 255, RR(-300, 600)})
C255(n) == Sure(Clamp(n, 0, 255))
Op(x) == RandomElement({RR(0, 1000), RR(0, 100) * 10, 0, 1000, RR(-500, 2000)})
Pc(x) == RandomElement({RR(0, 1000), RR(0, 100) * 10, 0, 1000, RR(-200, 2500)})
Draw(k) ==   \* the arguments written, drawn once
  CASE k \in {"hex3", "hex4", "hex6", "hex8"} -> TLCEval([i \in 1..8 |-> RR(0, 15)])
    [] k \in {"rgb", "rgba", "args3", "args4", "kw"} -> TLCEval(<<Chan(1), Chan(2), Chan(3), IF k = "args4" THEN Chan(4) ELSE Op(1)>>)
    [] k \in {"rgbp", "rgbap"} -> TLCEval(<<Pc(1), Pc(2), Pc(3), Op(1)>>)
    [] k \in {"hsl", "hsla"} -> TLCEval(<<RandomElement({RR(0, 360), RR(-720, 1000), 60 * RR(0, 6)}), RandomElement({RR(0, 100), 100, 0, RR(-50, 200)}),
                                        RandomElement({RR(0, 100), 50, RR(-50, 200)}), Op(1)>>)
    [] k \in {"keyword", "keyword_opacity"} -> TLCEval(<<RR(1, Len(KeywordTable)), 0, 0, Op(1)>>)
    [] OTHER -> TLCEval(<<RR(0, 255), RR(0, 255), RR(0, 255), RR(0, 255)>>)
Denotes(k, a) ==
  LET A == Alpha(a[4])
      Full == Sure(255) IN
  CASE k = "hex3" -> <<Digit(a[1]), Digit(a[2]), Digit(a[3]), Full>>
    [] k = "hex4" -> <<Digit(a[1]), Digit(a[2]), Digit(a[3]), Digit(a[4])>>
    [] k = "hex6" -> <<Byte(a[1], a[2]), Byte(a[3], a[4]), Byte(a[5], a[6]), Full>>
    [] k = "hex8" -> <<Byte(a[1], a[2]), Byte(a[3], a[4]), Byte(a[5], a[6]), Byte(a[7], a[8])>>
    [] k \in {"rgb", "args3"} -> <<C255(a[1]), C255(a[2]), C255(a[3]), Full>>
    [] k \in {"rgba", "kw"} -> <<C255(a[1]), C255(a[2]), C255(a[3]), A>>
    [] k = "args4" -> <<C255(a[1]), C255(a[2]), C255(a[3]), C255(a[4])>>
    [] k = "rgbp" -> <<Percent(a[1]), Percent(a[2]), Percent(a[3]), Full>>
    [] k = "rgbap" -> <<Percent(a[1]), Percent(a[2]), Percent(a[3]), A>>
    [] k = "hsl" -> Append(Hsl(a[1], a[2], a[3]), Full)
    [] k = "hsla" -> Append(Hsl(a[1], a[2], a[3]), A)
    [] k = "keyword" -> LET c == KeywordTable[a[1]].rgb IN <<Sure(c[1]), Sure(c[2]), Sure(c[3]), Full>>
    [] k = "keyword_opacity" -> LET c == KeywordTable[a[1]].rgb IN <<Sure(c[1]), Sure(c[2]), Sure(c[3]), A>>
    [] k = "transparent" -> <<Sure(0), Sure(0), Sure(0), Sure(0)>>
    [] k = "none" -> <<>>
    [] k = "int" -> <<Sure(a[1]), Sure(a[2]), Sure(a[3]), Full>>
    [] OTHER -> <<Sure(a[1]), Sure(a[2]), Sure(a[3]), Sure(a[4])>>      \* packed forms
Kinds == {"hex3", "hex4", "hex6", "hex8", "rgb", "rgba", "rgbp", "rgbap", "hsl", "hsla", "args3", "args4", "kw",
          "keyword", "keyword_opacity", "transparent", "none", "int", "rgba_int", "argb_int"}
Note(k, a) == [kind |-> k, args |-> a, name |-> IF k \in {"keyword", "keyword_opacity"} THEN KeywordTable[a[1]].name ELSE "", is |-> Denotes(k, a)]
Init == IF Short THEN \/ \E a \in [1..3 -> 0..15] : note = Note("hex3", a)
                      \/ \E i \in 1..Len(KeywordTable) : note = Note("keyword", <<i, 0, 0, 0>>)
        ELSE note = <<>>
Write == ~Short /\ note = <<>> /\ \E k \in {RandomElement(Kinds)} : \E a \in {Draw(k)} : note' = Note(k, a)
Spec == Init /\ [][Write]_vars
\* ---- laws: the notations agree where they can say the same
InvHex == note # <<>> /\ note.kind = "hex3" =>
   LET a == note.args IN Denotes("hex6", <<a[1], a[1], a[2], a[2], a[3], a[3]>>) = note.is
InvRange == note # <<>> => \A i \in 1..Len(note.is) : LET c == note.is[i] IN c[1] >= 0 /\ c[1] <= 255 * c[2]
InvGray == (note # <<>> /\ note.kind = "hsl" /\ note.args[2] <= 0) => note.is[1] = note.is[2] /\ note.is[2] = note.is[3]
InvPure == Hsl(0, 100, 50)[1][1] = 255 * 240000 /\ Hsl(0, 100, 50)[2][1] = 0 /\ Hsl(240, 100, 50)[3][1] = 255 * 240000 /\ Hsl(60, 100, 50)[2][1] = 255 * 240000
Emit == note # <<>> => PrintT("@@" \o ToJson(note))
=============================================================================
