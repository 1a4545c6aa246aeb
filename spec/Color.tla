------------------------------- MODULE Color -------------------------------
(* Colours in whole 1/n (percents for n = 100), converted exactly: fractions are kept as integers.
   HSL (s, l) -> HSV: V = value in 1/n^2, saturation = 2 (V - n l) / V.
   HSV (s, v) -> HSL: L = lightness in 1/2n^2, saturation = (2n v - L) / Min(L, 2n^2 - L).
   Both are homogeneous in the dark half: a third component k times smaller gives a result k times
   smaller, and the same saturation. *)
EXTENDS Integers
Min(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
ValueIn(n, s, l) == n * l + s * Min(l, n - l)
\* numerator and denominator of the saturation
SatVIn(n, s, l) == IF ValueIn(n, s, l) = 0 THEN <<0, 1>> ELSE <<2 * (ValueIn(n, s, l) - n * l), ValueIn(n, s, l)>>
LightIn(n, s, v) == v * (2 * n - s)
SatLIn(n, s, v) == IF LightIn(n, s, v) \in {0, 2 * n * n} THEN <<0, 1>>
                   ELSE <<2 * n * v - LightIn(n, s, v), Min(LightIn(n, s, v), 2 * n * n - LightIn(n, s, v))>>
Value(s, l) == ValueIn(100, s, l)
SatV(s, l) == SatVIn(100, s, l)
Light(s, v) == LightIn(100, s, v)
SatL(s, v) == SatLIn(100, s, v)
\* x (in 1/r) is the fraction f up to rounding
NearIn(r, x, f) == Abs(x * f[2] - r * f[1]) <= f[2]
=============================================================================
