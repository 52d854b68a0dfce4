------------------------------ MODULE ColorTrace ------------------------------
(* V02, V03: judges recorded writes to, readings of and mixtures of colors.
   A color is <<red, green, blue, alpha>>, or <<>> where it is none.
     k "step"   pre, op, n its numbers, o outcome, post
     k "read"   c color, hue.. scaled readings, packed forms as bytes; -1 for None
     k "over"   p over q gave post;  k "dist" sq, dm: squared distance, 1000 times the distance
     k "opaque" c, post                                                                            *)
EXTENDS Colors, Json, IOUtils, FiniteSetsExt
Trace  == ndJsonDeserialize(IOEnv.TRACE)
Chunks == 64
VARIABLES ch, i
Init == ch = 0 /\ i = 0
Next == \/ ch = 0 /\ ch' \in 1..Chunks /\ i' = 0
        \/ ch > 0 /\ i = 0 /\ ch' = ch /\ i' \in {n \in 1..Len(Trace) : (n % Chunks) + 1 = ch}
Spec == Init /\ [][Next]_<<ch, i>>
C255(n) == Sure(Clamp(n, 0, 255))
Kept(p) == [j \in 1..Len(p) |-> Sure(p[j])]
Place(op) == CASE op = "red" -> 1 [] op = "green" -> 2 [] op = "blue" -> 3 [] op = "alpha" -> 4 [] OTHER -> 0
Colored(p, three) == Append(three, Sure(p[4]))
After(p, op, n) ==
  CASE Place(op) > 0 -> [Kept(p) EXCEPT ![Place(op)] = C255(n[1])]
    [] op = "opacity" -> [Kept(p) EXCEPT ![4] = Alpha(n[1])]
    [] op = "rgb" -> <<Sure(n[1]), Sure(n[2]), Sure(n[3]), Sure(255)>>
    [] op \in {"rgba", "argb"} -> <<Sure(n[1]), Sure(n[2]), Sure(n[3]), Sure(n[4])>>
    [] op = "hue" -> Colored(p, WithHue(p, n[1]))
    [] op = "saturation" -> Colored(p, WithSaturation(p, n[1]))
    [] op = "lightness" -> Colored(p, WithLightness(p, n[1]))
    [] op = "hsl" -> Append(Hsl(n[1], n[2], n[3]), IF p = <<>> THEN Sure(255) ELSE Sure(p[4]))
AllFit(c, want) == Len(c) = Len(want) /\ \A j \in 1..Len(want) : Fits(c[j], want[j])
Whole == {"rgb", "rgba", "argb"}          \* say all there is to a color
Step(x) == IF x.pre = <<>> /\ x.op \notin (Whole \union {"hsl"}) THEN x.o = "ValueError" /\ x.post = <<>>
           ELSE IF x.pre = <<>> /\ x.op = "hsl" THEN TRUE
           ELSE x.o = "ok" /\ AllFit(x.post, After(x.pre, x.op, x.n))
Near(v, n, d) == AbsC((v * d) - n) <= d
NearHue(v, c) == LET h == HueOf(c) IN Near(v, h[1], h[2]) \/ Near(v - 3600000, h[1], h[2]) \/ Near(v + 3600000, h[1], h[2])
M == 1000000
Read(x) ==
  LET c == x.c IN
  IF c = <<>> THEN \A f \in {"hue", "saturation", "lightness", "intensity", "brightness", "blackness", "luminance", "luma", "opacity"} : x[f] = -1
                   /\ x.rgb = <<>> /\ x.rgba = <<>> /\ x.argb = <<>> /\ x.hsl = <<>>
  ELSE /\ x.rgb = <<c[1], c[2], c[3]>> /\ x.rgba = c /\ x.argb = <<c[4], c[1], c[2], c[3]>>
       /\ NearHue(x.hue, c) /\ x.hue >= 0 /\ x.hue <= 3600000
       /\ (IF Max3(c) = Min3(c) THEN x.saturation = 0 ELSE Near(x.saturation, M * (Max3(c) - Min3(c)), Width(c)))
       /\ Near(x.lightness, M * (Max3(c) + Min3(c)), 510)
       /\ x.hsl = <<x.hue, x.saturation, x.lightness>>
       /\ Near(x.intensity, M * Sum3(c), 768)
       /\ Near(x.brightness, M * Max3(c), 255)
       /\ Near(x.blackness, M * (255 - Max3(c)), 255)
       /\ Near(x.luminance, 1000 * ((300 * c[1]) + (590 * c[2]) + (110 * c[3])), 255)
       /\ Near(x.luma, 100 * ((2126 * c[1]) + (7152 * c[2]) + (722 * c[3])), 255)
       /\ Near(x.opacity, M * c[4], 255)
OverOK(x) == AllFit(x.post, Over(x.p, x.q)) /\ \A j \in 1..3 : Between(x.post[j], x.p[j], x.q[j])
             /\ x.post[4] >= x.p[4] /\ x.post[4] >= x.q[4]
Dist(x) == LET s == DistanceSq(x.p, x.q) IN x.sq = s /\ x.back = s
Distinct(x) == LET vs == {x.v[j] : j \in 1..Len(x.v)} IN Cardinality(vs) = Len(x.v) /\ Min(vs) >= 0
Holds(x) == CASE x.k = "step" -> Step(x) [] x.k = "read" -> Read(x) [] x.k = "over" -> OverOK(x) [] x.k = "dist" -> Dist(x)
              [] x.k = "opaque" -> x.post = (IF x.c = <<>> THEN <<>> ELSE [x.c EXCEPT ![4] = 255]) [] x.k = "distinct" -> Distinct(x) [] OTHER -> FALSE
Judge == i = 0 \/ Holds(Trace[i]) \/ PrintT("@@" \o ToJson([i |-> i]))
===============================================================================
