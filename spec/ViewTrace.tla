------------------------------ MODULE ViewTrace -----------------------------
(* Observations of real views and of searches over them: behaviours of View. *)
EXTENDS View, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
Lists(seq, set) == Len(seq) = Cardinality(set) /\ S(seq) = set
ListsEdges(g, seq, set) == Len(seq) = Cardinality(set) /\ {Canon(g, seq[i]) : i \in 1..Len(seq)} = set
Start(x) == [g |-> EmptyGraph(x.dir, x.n),
             ws |-> [i \in 1..Len(x.ws) |->
               LET w == x.ws[i] IN IF w.k = "base" THEN Base(IF w.allv THEN AllV ELSE S(w.v), IF w.alle THEN AllE ELSE {})
                                   ELSE Combo(w.k, w.i, w.j)]]
Bad(s, e) ==
  IF e.op \in {"av", "ae", "re", "rv", "dv", "de"} THEN {}
  ELSE LET g == Denotes(s, e.w) IN
  CASE e.op = "vertices" -> Fail("vertices", Lists(e.r, g.vs))
    [] e.op = "num_vertices" -> Fail("num_vertices", e.r = Cardinality(g.vs))
    [] e.op = "edges" -> Fail("edges", ListsEdges(g, e.r, g.es))
    [] e.op = "num_edges" -> Fail("num_edges", e.r = Cardinality(g.es))
    [] e.op = "out_edges" -> Fail("out_edges", Lists(e.r, OutEdges(g, e.u)))
    [] e.op = "out_degree" -> Fail("out_degree", e.r = OutDegree(g, e.u))
    [] e.op = "in_edges" -> Fail("in_edges", IF g.dir THEN Lists(e.r, InEdges(g, e.u)) ELSE ListsEdges(g, e.r, {Canon(g, x) : x \in InEdges(g, e.u)}))
    [] e.op = "in_degree" -> Fail("in_degree", e.r = InDegree(g, e.u))
    [] e.op = "search" -> Fail("search-over-view", Lists(e.r, ReachFix(g, {e.u})))
    [] e.op = "searchall" -> Fail("search-over-view", Lists(e.r, g.vs))
    [] OTHER -> {"unknown-op"}
Step(s, e) ==
  CASE e.op = "av" -> OnGraph(s, AddVertex(s.g))
    [] e.op = "ae" -> OnGraph(s, AddEdge(s.g, e.e))
    [] e.op = "re" -> OnGraph(s, RemoveEdge(s.g, e.e))
    [] e.op = "rv" -> OnGraph(s, RemoveVertex(s.g, e.u))
    [] e.op = "dv" -> DeclV(s, e.i, e.u, e.b)
    [] e.op = "de" -> DeclE(s, e.i, Canon(s.g, e.e), e.b)
    [] OTHER -> s
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
