---------------------------- MODULE TokenizeTrace ----------------------------
(* Answers of the tokenizers. No state: every event is judged alone. *)
EXTENDS Tokenize, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
Start(x) == [n |-> 0]
\* the observed pieces <<matched, start, end, text>>
Texts(s, ps) == \A k \in 1..Len(ps) : ps[k][2] >= 0 /\ ps[k][3] <= Len(s) /\ ps[k][4] = Sub(s, ps[k][2], ps[k][3])
Bad(x, e) ==
  CASE e.op = "pieces" ->
         IF ~ \A k \in 1..Len(e.r) : e.r[k][2] >= 0 /\ e.r[k][3] <= Len(e.s) /\ e.r[k][2] <= e.r[k][3] THEN {"positions"}
         ELSE Fail("text-of-pieces", Texts(e.s, e.r)) \cup Fail("pieces", PiecesOK(e.p, e.s, e.r)) \cup Fail("input-shown", e.shown = 1)
    [] e.op = "algebra" -> LET t == Algebraic(e.s) IN
         IF t # <<>> /\ (IF t # <<>> THEN t[Len(t)] = <<3, 0>> ELSE FALSE) THEN Fail("not-refused", e.r = <<<<3, 0>>>>)
         ELSE Fail("algebraic-tokens", SameTokens(e.r, t))
    [] e.op = "regex" -> Fail("regex-tokens", e.r = RegexTokens(e.s, e.cat))
    [] e.op = "escape" -> Fail("escaped-word", Literal(e.r) = e.s)
    [] OTHER -> {"unknown-op"}
Step(x, e) == x
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
