----------------------------- MODULE RegexTrace -----------------------------
(* What the automata compiled from a regular expression accept.
   State: the term that the expression denotes (none for sequences of tokens). *)
EXTENDS Regex, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
Start(x) == IF "x" \in DOMAIN x THEN Read(x.x, S(x.alphabet)) ELSE Eps
Bad(t, e) ==
  CASE e.op = "nfa" ->
         LET m == [out |-> e.m.out, ini |-> S(e.m.ini), fin |-> S(e.m.fin)] IN
         IF ~WF(m) THEN {"not-an-automaton"} ELSE Fail("nfa-language", DenotesNfa(t, m)) \cup Fail("one-initial-and-one-final-state", e.ends = <<1, 1>>)
    [] e.op = "dfa" ->
         LET m == [out |-> e.m.out, ini |-> e.m.ini, fin |-> S(e.m.fin)] IN
         IF ~DetWF(m) \/ m.ini = Bottom THEN {"not-a-deterministic-automaton"} ELSE Fail("dfa-language", DenotesDfa(t, m))
    [] e.op = "accepts" -> Fail("accepts-" \o e.what, (e.r = 1) <=> Matches(t, e.w))
    [] e.op = "compiled" -> Fail("refusal-" \o e.what, (e.r = 1) <=> IsExpression(e.kinds))
    [] OTHER -> {"unknown-op"}
Step(t, e) == t
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
