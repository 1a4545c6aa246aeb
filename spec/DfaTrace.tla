------------------------------ MODULE DfaTrace ------------------------------
(* Observations of deterministic automata: behaviours of Dfa.               *)
EXTENDS Dfa, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
Lists(seq, set) == Len(seq) = Cardinality(set) /\ S(seq) = set
B(b) == IF b THEN 1 ELSE 0

(* Construction from a list of transitions between named states (names are  *)
(* numbered 1..n): the first transition on a state and symbol counts.       *)
RECURSIVE Kept(_, _)
Kept(ts, acc) == IF ts = <<>> THEN acc
                 ELSE LET t == Head(ts) IN
                      Kept(Tail(ts), IF \E x \in acc : x[1] = t[1] /\ x[2] = t[2] THEN acc ELSE acc \cup {<<t[1], t[2], t[3]>>})
Bijections(n) == {f \in [1..n -> 0..(n-1)] : \A i, j \in 1..n : i # j => f[i] # f[j]}
\* the names and states that the words read from the initial state pair up
RECURSIVE Paired(_, _, _)
Paired(ts, es, r) ==
  LET more == {<<t[3], x[3]>> : t \in ts, x \in es} IN
  LET new == r \cup {p \in more : \E t \in ts, x \in es : p = <<t[3], x[3]>> /\ t[2] = x[2] /\ <<t[1], x[1]>> \in r} IN
  IF new = r THEN r ELSE Paired(ts, es, new)
Namings(e) ==
  IF e.n <= 7 THEN Bijections(e.n)
  ELSE LET r == Paired(Kept(e.ts, {}), S(e.edges), {<<e.q0n, e.q0>>}) IN
       IF Cardinality(r) = e.n /\ {p[1] : p \in r} = 1..e.n /\ {p[2] : p \in r} = 0..(e.n-1)
       THEN {[i \in 1..e.n |-> CHOOSE v \in 0..(e.n-1) : <<i, v>> \in r]} ELSE {}
Made(e) == \E f \in Namings(e) :
  /\ S(e.edges) = {<<f[t[1]], t[2], f[t[3]]>> : t \in Kept(e.ts, {})}
  /\ Len(e.edges) = Cardinality(S(e.edges))
  /\ e.n > 0 => e.q0 = f[e.q0n]
  /\ S(e.finals) = {f[i] : i \in S(e.fin)}
  /\ S(e.vertices) = 0..(e.n-1) /\ Len(e.vertices) = e.n
  /\ e.syms = <<>> \/ \A i \in 1..e.n : e.syms[f[i] + 1] = e.symn[i]

Start(x) == New(x.kind, x.n, x.q0, S(x.fin))
Bad(m, e) ==
  CASE e.op = "add_vertex" -> Fail("next-state-id", e.u = m.nxt)
    [] e.op = "add_edge" ->
         LET a == LabelOf(m, e.v, e.a) IN
         IF CanAdd(m, e.u, a)
         THEN Fail("added", e.added = 1) \cup (IF e.added = 1 THEN Fail("descriptor", e.e = <<e.u, e.v, a>>) ELSE {})
         ELSE Fail("second-transition-refused", e.added = 0)
    [] e.op \in {"remove_edge", "remove_vertex", "set_initial", "set_final", "insert"} -> {}
    [] e.op = "made" -> Fail("made-from-transitions", Made(e))
    [] e.op = "vertices" -> Fail("vertices", Lists(e.r, m.vs))
    [] e.op = "num_vertices" -> Fail("num_vertices", e.r = Cardinality(m.vs))
    [] e.op = "edges" -> Fail("edges", Lists(e.r, {<<t[1], t[3], t[2]>> : t \in m.tr}))
    [] e.op = "num_edges" -> Fail("num_edges", e.r = Cardinality(m.tr))
    [] e.op = "out_edges" -> Fail("out_edges", Lists(e.r, {<<t[1], t[3], t[2]>> : t \in {x \in m.tr : x[1] = e.u}}))
    [] e.op = "out_degree" -> Fail("out_degree", e.r = Cardinality({x \in m.tr : x[1] = e.u}))
    [] e.op = "delta" -> Fail("delta", e.r = Delta(m, e.u, e.a))
    [] e.op = "edge" -> \* edge(q, r, a) (edge-labelled)
         LET there == <<e.u, e.a, e.v>> \in m.tr IN
         Fail("edge-lookup", e.found = B(there) /\ (there => e.e = <<e.u, e.v, e.a>>))
    [] e.op = "nedge" -> \* edge(q, r) (node-labelled)
         LET there == \E t \in m.tr : t[1] = e.u /\ t[3] = e.v IN
         Fail("edge-lookup", e.found = B(there) /\ (there => <<e.e[1], e.e[3], e.e[2]>> \in m.tr /\ e.e[1] = e.u /\ e.e[2] = e.v))
    [] e.op = "label" -> Fail("label", <<e.e[1], e.r, e.e[2]>> \in m.tr)
    [] e.op = "symbol" -> Fail("symbol", e.r = m.sym[e.u])
    [] e.op = "sigma" -> Fail("sigma", Lists(e.r, Sigma(m, e.u)))
    [] e.op = "alphabet" -> Fail("alphabet", Lists(e.r, Alphabet(m)))
    [] e.op = "initial" -> Fail("initial", e.r = m.q0)
    [] e.op = "is_initial" -> Fail("is_initial", e.r = B(e.u = m.q0))
    [] e.op = "finals" -> Fail("finals", Lists(e.r, Finals(m)))
    [] e.op = "is_final" -> Fail("is_final", e.r = B(e.u \in m.fin))
    [] e.op = "is_complete" -> Fail("is_complete", e.r = B(Complete(m)))
    [] e.op = "is_det" -> Fail("is_deterministic/is_finite", e.r = 1)
    [] e.op = "delta_word" -> Fail("delta_word", e.r = DeltaWord(m, e.u, e.w))
    [] e.op = "accepts" -> Fail("accepts", e.r = B(Accepts(m, e.w)))
    [] e.op = "best_effort" -> Fail("best-effort", e.r = BestEffort(m, m.q0, e.w, 0))
    [] OTHER -> {"unknown-op"}
Step(m, e) ==
  CASE e.op = "add_vertex" -> AddState(m, e.a)
    [] e.op = "add_edge" -> AddTr(m, e.u, e.v, LabelOf(m, e.v, e.a))
    [] e.op = "remove_edge" -> DelTr(m, e.e[1], e.e[3])
    [] e.op = "remove_vertex" -> DelState(m, e.u)
    [] e.op = "set_initial" -> SetInitial(m, e.u, e.b)
    [] e.op = "set_final" -> SetFinal(m, e.u, e.b)
    [] e.op = "insert" -> InsertString(m, e.w)
    [] OTHER -> m
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
