---------------------------- MODULE MinimizeTrace ----------------------------
(* Answers of hopcroft_agglomerate_states and hopcroft_minimize.
   State: the automaton. *)
EXTENDS Minimize, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
Auto(x) == [out |-> x.out, ini |-> x.ini, fin |-> S(x.fin)]
Start(x) == Auto(x)
Bad(m, e) ==
  CASE e.op = "blocks" -> LET P == {S(e.r[i]) : i \in 1..Len(e.r)} IN
         Fail("partition", IsPartition(P, States(m)) /\ Cardinality(P) = Len(e.r))
         \cup Fail("not-the-coarsest-stable-partition", P = MooreBlocks(m))
    [] e.op = "min" -> LET r == Auto(e.m) IN
         IF ~DetWF(r) \/ r.ini = Bottom THEN {"not-a-deterministic-automaton"}
         ELSE Fail("language-changed", SameLang(m, r))
              \cup Fail("number-of-states", Len(r.out) = Cardinality(MooreBlocks(m)))
              \cup Fail("two-equivalent-states", IsComplete(m, Syms(m)) => NoTwoEquivalent(r))
    [] e.op = "input" -> Fail("input-changed", Auto(e.m) = m)
    [] OTHER -> {"unknown-op"}
Step(m, e) == m
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
