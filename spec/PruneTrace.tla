----------------------------- MODULE PruneTrace -----------------------------
(* Answers of find_reachable_vertices and effects of prune_incidence_automaton.
   State: the automaton before. *)
EXTENDS Lang, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
Auto(x) == [out |-> x.out, ini |-> x.ini, fin |-> S(x.fin)]
Start(x) == Auto(x)
RECURSIVE Closure(_, _)
Closure(T, X) == LET n == X \cup {t[3] : t \in {x \in T : x[1] \in X}} IN IF n = X THEN X ELSE Closure(T, n)
Useful(m) == Reachable(m) \cap Coreachable(m)
Bad(m, e) ==
  CASE e.op = "reach" -> Fail("reachable-set", S(e.r) = Closure(Trans(m), S(e.from)) /\ Len(e.r) = Cardinality(S(e.r)))
    [] e.op = "prune" ->
         LET U == Useful(m)  T == {x \in Trans(m) : x[1] \in U /\ x[3] \in U} IN
         Fail("kept-states", S(e.at) = U /\ Len(e.at) = Cardinality(U) /\ e.n = Cardinality(U))
         \cup Fail("kept-transitions", S(e.out) = T /\ Len(e.out) = Cardinality(T))
         \cup Fail("incoming-transitions", S(e.in) = T /\ Len(e.in) = Cardinality(T))
         \cup Fail("all-transitions", S(e.all) = T /\ Len(e.all) = Cardinality(T))
         \cup Fail("final-states", S(e.fin) = m.fin \cap U)
         \cup Fail("initial-state", m.ini \in U => e.ini = m.ini)
    [] e.op = "accepts" -> Fail("accepts", (e.r = 1) <=> Accepts(m, e.w))
    [] e.op = "later" -> Fail("not-usable-afterwards", e.in = e.want /\ e.out = e.want)
    [] OTHER -> {"unknown-op"}
Step(m, e) == m
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
