--------------------------- MODULE IncidenceTrace ---------------------------
(* Observations of graphs with incoming edges: behaviours of Incidence.     *)
EXTENDS Incidence, Integers, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
Lists(seq, set) == Len(seq) = Cardinality(set) /\ S(seq) = set
Start(x) == StartState(x.kind, x.n)
Bad(s, e) ==
  CASE e.op = "add_vertex" -> Fail("next-vertex-id", e.u = s.g.nxt)
    [] e.op = "add_edge" ->
         LET a == IF s.kind = "plain" THEN e.e[3] ELSE IF s.kind = "node" THEN s.sym[e.v] ELSE e.a IN
         IF Admissible(s, e.u, a)
         THEN Fail("added", e.added = 1)
              \cup (IF e.added = 1 THEN Fail("descriptor", e.e = <<e.u, e.v, a>> /\ e.e \notin s.g.es) ELSE {})
         ELSE Fail("second-transition-refused", e.added = 0)
    [] e.op \in {"remove_edge", "remove_vertex", "clear", "reverse"} -> {}
    [] e.op = "vertices" -> Fail("vertices", Lists(e.r, s.g.vs))
    [] e.op = "num_vertices" -> Fail("num_vertices", e.r = Cardinality(s.g.vs))
    [] e.op = "edges" -> Fail("edges", Lists(e.r, SeenEdges(s)))
    [] e.op = "num_edges" -> Fail("num_edges", e.r = Cardinality(s.g.es))
    [] e.op = "out_edges" -> Fail("out_edges", Lists(e.r, SeenOut(s, e.u)))
    [] e.op = "out_degree" -> Fail("out_degree", e.r = Cardinality(SeenOut(s, e.u)))
    [] e.op = "in_edges" -> Fail("in_edges", Lists(e.r, SeenIn(s, e.u)))
    [] e.op = "in_degree" -> Fail("in_degree", e.r = Cardinality(SeenIn(s, e.u)))
    [] OTHER -> {"unknown-op"}
Step(s, e) ==
  CASE e.op = "add_vertex" -> AddV(s, e.a)
    [] e.op = "add_edge" -> IF e.added = 1 THEN AddE(s, e.e) ELSE s
    [] e.op = "remove_edge" -> DelE(s, See(s, e.e))
    [] e.op = "remove_vertex" -> DelV(s, e.u)
    [] e.op = "clear" -> ClearAll(s)
    [] e.op = "reverse" -> Reverse(s)
    [] OTHER -> s
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
