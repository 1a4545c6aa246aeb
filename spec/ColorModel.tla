----------------------------- MODULE ColorModel -----------------------------
(* The formulas on every colour: the two conversions undo each other, and stay within bounds.
   A colour is converted, then converted back with exact fractions. *)
EXTENDS Color
CONSTANTS Step, Half     \* Half = TRUE: the usual formula; FALSE: a lightness that forgets to halve the saturation
VARIABLES s, x, mode, done
Init == s \in {i * Step : i \in 0..(100 \div Step)} /\ x \in {i * Step : i \in 0..(100 \div Step)} /\ mode \in {"hsl", "hsv"} /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED <<s, x, mode>>
Spec == Init /\ [][Next]_<<s, x, mode, done>>
Percent(f) == f[2] > 0 /\ f[1] >= 0 /\ f[1] <= f[2]
L(sat, val) == IF Half THEN Light(sat, val) ELSE val * (200 - 2 * sat)
Bounds == IF mode = "hsl" THEN Value(s, x) \in 0..10000 /\ Percent(SatV(s, x))
          ELSE Light(s, x) \in 0..20000 /\ Percent(SatL(s, x))
(* hsl -> hsv: with V and S = n/V, the lightness of (S, V) is V (1 - S/2) = V - n/2, in 1/10000 *)
BackL == mode = "hsl" => LET V == Value(s, x) IN V # 0 => 2 * V - SatV(s, x)[1] = 2 * 100 * x
(* ... and its saturation (V - l)/min(l, 1-l) is s *)
BackS == (mode = "hsl" /\ x \notin {0, 100}) => (Value(s, x) - 100 * x) = s * Min(x, 100 - x)
(* hsv -> hsl: with L and S = n/d, the value of (S, L) is L + S min(L, 1-L) = L + n *)
BackV == mode = "hsv" => L(s, x) + (IF L(s, x) \in {0, 20000} THEN 0 ELSE SatL(s, x)[1]) = 200 * x
(* ... and its saturation 2 (1 - L/V) is s *)
BackSV == (mode = "hsv" /\ x # 0) => 2 * (200 * x - L(s, x)) * 100 = s * 200 * x
(* the dark half: a third component twice smaller *)
Homogeneous == (x <= 50 /\ x % 2 = 0) =>
  IF mode = "hsl" THEN Value(s, x) = 2 * Value(s, x \div 2) /\ SatV(s, x)[1] * SatV(s, x \div 2)[2] = SatV(s, x \div 2)[1] * SatV(s, x)[2]
  ELSE Light(s, x) = 2 * Light(s, x \div 2) /\ SatL(s, x)[1] * SatL(s, x \div 2)[2] = SatL(s, x \div 2)[1] * SatL(s, x)[2]
(* percents are tenths of permilles *)
Finer == IF mode = "hsl" THEN ValueIn(1000, 10 * s, 10 * x) = 100 * Value(s, x) ELSE LightIn(1000, 10 * s, 10 * x) = 100 * Light(s, x)
=============================================================================
