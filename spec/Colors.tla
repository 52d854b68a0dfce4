-------------------------------- MODULE Colors --------------------------------
(* What colors denote, exactly: channels are 0..255; quantities that the code stores rounded to such
   a channel are rationals <<numerator, denominator, slack>>, meaning |channel - n/d| <= slack/2.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Clamp(n, lo, hi) == IF n < lo THEN lo ELSE IF n > hi THEN hi ELSE n
\* a channel: <<numerator, denominator, slack>>: |channel - n/d| <= slack/2
Sure(n) == <<n, 1, 0>>
Nearest(n, d) == <<n, d, 1>>
Within1(n, d) == <<n, d, 2>>
Digit(h) == Sure(17 * h)
Byte(h, l) == Sure((16 * h) + l)
Percent(k) == Nearest(255 * Clamp(k, 0, 1000), 1000)          \* in tenths of a percent
Alpha(k) == Nearest(255 * Clamp(k, 0, 1000), 1000)            \* in thousandths
\* ---- hue in degrees, saturation and lightness in percent; in units of 1/10000 * 1/360
HueShare(v1, v2, t0) == LET t == t0 % 360 IN
  IF 6*t < 360 THEN (360*v1) + ((v2 - v1)*6*t)
  ELSE IF 2*t < 360 THEN 360*v2
  ELSE IF 3*t < 720 THEN (360*v1) + ((v2 - v1)*((240 - t)*6))
  ELSE 360*v1
Hsl(h, s0, l0) == LET s == Clamp(s0, 0, 100)
                      l == Clamp(l0, 0, 100)
                      v2 == IF l < 50 THEN l*(100 + s) ELSE (100*(l + s)) - (s*l)
                      v1 == (200*l) - v2 IN
  \* 255 / (10000*360) = 17 / 240000
  [i \in 1..3 |-> LET n == HueShare(v1, v2, h + <<120, 0, -120>>[i]) IN Within1(n * 17, 240000)]

AbsC(x) == IF x < 0 THEN -x ELSE x
Fits(c, x) == c \in 0..255 /\ AbsC(2 * ((c * x[2]) - x[1])) <= x[3] * x[2]
Max3(p) == LET m == IF p[1] > p[2] THEN p[1] ELSE p[2] IN IF m > p[3] THEN m ELSE p[3]
Min3(p) == LET m == IF p[1] < p[2] THEN p[1] ELSE p[2] IN IF m < p[3] THEN m ELSE p[3]
Sum3(p) == p[1] + p[2] + p[3]
\* ---- hue: 60 * (sector + fraction) degrees, as <<numerator, denominator>> in 1/10000 degree
HueOf(p) ==
  LET hi == Max3(p)
      d == hi - Min3(p)
      n == IF p[1] = hi THEN p[2] - p[3] ELSE IF p[2] = hi THEN (2*d) + (p[3] - p[1]) ELSE (4*d) + (p[1] - p[2])
  IN IF d = 0 THEN <<0, 1>> ELSE <<600000 * (IF n < 0 THEN n + (6*d) ELSE n), d>>
\* the width of the channel range that full saturation has at this lightness
Width(p) == 255 - AbsC(Max3(p) + Min3(p) - 255)
\* ---- the saturation in 1/k, the lightness in 1/k or the hue in degrees are set; the other two stay
Shape(p, i) == IF Max3(p) = Min3(p) THEN <<1, 0, 0>>[i] ELSE p[i] - Min3(p)      \* times the spread, or of red
Spread(p) == IF Max3(p) = Min3(p) THEN 1 ELSE Max3(p) - Min3(p)
WithSaturation(p, k) ==
  LET w == Width(p)
      two == Max3(p) + Min3(p)
      d == Spread(p) IN
  [i \in 1..3 |-> Within1((((two * 1000) - (k * w)) * d) + (2 * Shape(p, i) * k * w), 2000 * d)]
WithLightness(p, k) ==
  LET w == Width(p)
      d == Max3(p) - Min3(p)
      a == 255 * (1000 - AbsC((2*k) - 1000)) IN
  [i \in 1..3 |-> IF d = 0 THEN Within1(255 * k, 1000)
                  ELSE Within1((255 * k * 2 * w) + (a * ((2 * (p[i] - Min3(p))) - d)), 2000 * w)]
WithHue(p, h) == [i \in 1..3 |-> Within1(HueShare(Min3(p), Max3(p), h + <<120, 0, -120>>[i]), 360)]
\* ---- mixing: the weight of the whole is alpha of the top, and of the bottom what the top leaves
OverWeight(p, q) == (p[4] * 255) + (q[4] * (255 - p[4]))
Over(p, q) ==
  IF p[4] = 255 THEN [i \in 1..4 |-> Sure(p[i])]
  ELSE IF p[4] = 0 THEN [i \in 1..4 |-> Sure(q[i])]
  ELSE [i \in 1..4 |-> IF i = 4 THEN Within1(OverWeight(p, q), 255)
                       ELSE Within1((p[i] * p[4] * 255) + (q[i] * q[4] * (255 - p[4])), OverWeight(p, q))]
Between(c, x, y) == (x <= c /\ c <= y) \/ (y <= c /\ c <= x)
\* ---- distance: low cost approximation weighted by the mean of the reds
DistanceSq(p, q) ==
  LET m == (p[1] + q[1]) \div 2
      r == p[1] - q[1]
      g == p[2] - q[2]
      b == p[3] - q[3] IN
  (((512 + m) * r * r) \div 256) + (4 * g * g) + (((767 - m) * b * b) \div 256)
===============================================================================
