------------------------------ MODULE EditTrace ------------------------------
(* Answers of the distances of two words. State: the two words. *)
EXTENDS Edit, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
Start(w) == [x |-> w.x, y |-> w.y]
Of(kind, x, y) == CASE kind = "lev" -> Lev(x, y) [] kind = "lcs" -> Lcs(x, y) [] kind = "osa" -> Osa(x, y)
Drop(w, k) == SubSeq(w, k + 1, Len(w))
Bad(s, e) ==
  CASE e.op = "distance" -> LET d == Of(e.kind, s.x, s.y) IN
         Fail(e.kind, e.r = d) \cup Fail(e.kind \o "-swapped", e.swapped = d)
         \cup Fail(e.kind \o "-naive", e.naive \in {-1, d})
         \cup Fail(e.kind \o "-to-itself", e.same = <<0, 0>>)
    [] e.op = "rest" -> Fail(e.kind \o "-of-the-rests", e.r = Of(e.kind, Drop(s.x, e.i), Drop(s.y, e.j)))
    [] OTHER -> {"unknown-op"}
Step(s, e) == s
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
