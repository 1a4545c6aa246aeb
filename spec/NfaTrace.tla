------------------------------ MODULE NfaTrace ------------------------------
(* Observations of non-deterministic automata: behaviours of Nfa.           *)
EXTENDS Nfa, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
Lists(seq, set) == Len(seq) = Cardinality(set) /\ S(seq) = set
B(b) == IF b THEN 1 ELSE 0
Start(x) == [ini0 |-> S(x.ini)] @@ NewNfa(x.n, S(x.ini), S(x.fin))
Shown(ts) == {<<t[1], t[3], t[2]>> : t \in ts}
Bad(m, e) ==
  CASE e.op = "add_vertex" -> Fail("next-state-id", e.u = m.nxt)
    [] e.op = "add_edge" -> Fail("descriptor", e.e = <<e.u, e.v, e.a>> /\ e.added = 1)
    [] e.op \in {"remove_edge", "remove_vertex", "set_initial", "set_initials", "set_final"} -> {}
    [] e.op = "vertices" -> Fail("vertices", Lists(e.r, m.vs))
    [] e.op = "num_vertices" -> Fail("num_vertices", e.r = Cardinality(m.vs))
    [] e.op = "edges" -> Fail("edges", Lists(e.r, Shown(m.tr)))
    [] e.op = "num_edges" -> Fail("num_edges", e.r = Cardinality(m.tr))
    [] e.op = "out_edges" -> Fail("out_edges", Lists(e.r, Shown({x \in m.tr : x[1] = e.u})))
    [] e.op = "out_degree" -> Fail("out_degree", e.r = Cardinality({x \in m.tr : x[1] = e.u}))
    [] e.op = "is_eps" -> Fail("is_epsilon_transition", e.r = B(e.e[3] = Eps))
    \* the set that was given at the start
    [] e.op = "given" -> Fail("given-initials-changed", S(e.r) = m.ini0)
    [] e.op = "epsilon" -> Fail("epsilon", e.r = Eps)
    [] e.op = "alphabet" -> Fail("alphabet", Lists(e.r, Alphabet(m)))
    [] e.op = "initials" -> Fail("initials", Lists(e.r, m.ini))
    [] e.op = "is_initial" -> Fail("is_initial", e.r = B(e.u \in m.ini))
    [] e.op = "finals" -> Fail("finals", Lists(e.r, Finals(m)))
    [] e.op = "is_final" -> Fail("is_final", e.r = B(e.u \in m.fin))
    [] e.op = "sigma" -> Fail("sigma", Lists(e.r, Sigma(m, e.u)))
    [] e.op = "one_step" -> Fail("one-step", Lists(e.r, OneStep(m, S(e.qs), e.a)))
    [] e.op = "closure" -> Fail("epsilon-closure", Lists(e.r, Closure(m, S(e.qs))))
    [] e.op = "delta" -> Fail("delta", Lists(e.r, Delta(m, e.u, e.a)))
    [] e.op = "delta_word" -> Fail("delta_word", Lists(e.r, DeltaWord(m, e.w)))
    [] e.op = "accepts" -> Fail("accepts", e.r = B(Accepts(m, e.w)))
    [] OTHER -> {"unknown-op"}
Step(m, e) ==
  CASE e.op = "add_vertex" -> AddState(m)
    [] e.op = "add_edge" -> AddTr(m, e.u, e.a, e.v)
    [] e.op = "remove_edge" -> DelTr(m, e.e[1], e.e[3], e.e[2])
    [] e.op = "remove_vertex" -> DelState(m, e.u)
    [] e.op = "set_initial" -> SetInitial(m, e.u, e.b)
    [] e.op = "set_initials" -> SetInitials(m, S(e.qs))
    [] e.op = "set_final" -> SetFinal(m, e.u, e.b)
    [] OTHER -> m
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
