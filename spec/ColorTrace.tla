----------------------------- MODULE ColorTrace -----------------------------
(* Conversions recorded from the code. Inputs in degrees and 1/n (n = 100 or 1000, the third component
   possibly scaled down, and its result back up); results: hue in 1/1000 degree, saturation in 1/r,
   value in 1/n^2, lightness in 1/2n^2; r = 10000 for n = 100 and 1000 for n = 1000. *)
EXTENDS Color, Sequences, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
Start(x) == x
R(e) == IF e.n = 100 THEN 10000 ELSE 1000
HsvBad(e) == Fail("hue", Abs(e.r[1] - 1000 * e.h) <= 1)
        \cup Fail("value", Abs(e.r[3] - ValueIn(e.n, e.s, e.x)) <= 1)
        \cup Fail("saturation", NearIn(R(e), e.r[2], SatVIn(e.n, e.s, e.x)))
HslBad(e) == Fail("hue", Abs(e.r[1] - 1000 * e.h) <= 1)
        \cup Fail("lightness", Abs(e.r[3] - LightIn(e.n, e.s, e.x)) <= 1)
        \cup Fail("saturation", NearIn(R(e), e.r[2], SatLIn(e.n, e.s, e.x)))
(* back: hue in 1/1000 degree, saturation and third component in 1/100n *)
BackBad(e) ==
  Fail("round-trip-hue", Abs(e.b[1] - 1000 * e.h) <= 1)
  \cup Fail("round-trip-third", Abs(e.b[3] - 100 * e.x) <= 1)
  \cup Fail("round-trip-saturation", e.x = 0 \/ (e.op = "hsv" /\ e.x = e.n) \/ Abs(e.b[2] - 100 * e.s) <= 1)
Bad(s, e) ==
  CASE e.op = "hsv" -> HsvBad(e) \cup BackBad(e)
    [] e.op = "hsl" -> HslBad(e) \cup BackBad(e)
    [] e.op = "html" -> HsvBad(e)
    [] e.op = "other" -> Fail("unchanged", e.r = e.c)
    [] e.op = "norm" -> Fail("normalized", Abs(e.r[1] - 1000 * e.h) <= 1 /\ Abs(e.r[2] - 100 * e.s) <= 1 /\ Abs(e.r[3] - 100 * e.x) <= 1)
    [] OTHER -> {"unknown-op"}
Step(s, e) == s
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
