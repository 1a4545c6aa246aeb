----------------------------- MODULE MooreTrace -----------------------------
(* Answers of moore_determination. *)
EXTENDS Moore, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
Start(x) == [out |-> x.out, ini |-> S(x.ini), fin |-> S(x.fin)]
Bad(n, e) ==
  CASE e.op = "dfa" ->
         LET m == [out |-> e.m.out, ini |-> e.m.ini, fin |-> S(e.m.fin)]  T == Track(n, m)  c == e.complete = 1 IN
         IF ~DetWF(m) \/ m.ini = Bottom THEN {"not-a-deterministic-automaton"}
         ELSE Fail("wrong-language", SameNfaDfa(n, m))
              \cup Fail("complete", ~c \/ IsComplete(m, Letters(n)))
              \cup Fail("dead-transition", c \/ NoDead(n, m, T))
              \cup Fail("unreachable-state", {x[2] : x \in T} \ {Bottom} = States(m))
              \cup Fail("two-states-for-one-set", \A x, y \in T : x[2] # Bottom /\ y[2] # Bottom => (x[1] = y[1] <=> x[2] = y[2]))
              \cup Fail("input-changed", e.same = 1) \cup Fail("not-the-given-automaton", e.given = 1)
    [] OTHER -> {"unknown-op"}
Step(n, e) == n
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
