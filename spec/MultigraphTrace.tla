--------------------------- MODULE MultigraphTrace --------------------------
(***************************************************************************)
(* Which observations of a real graph are behaviours of Multigraph.        *)
(* Events carry the operation, its arguments and what the code answered.   *)
(***************************************************************************)
EXTENDS Multigraph, Integers, TLC, Json, IOUtils
VARIABLES tid, l, st

Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
Distinct(seq) == Cardinality(S(seq)) = Len(seq)
\* a listing without repetition of exactly this set
Lists(seq, set) == Len(seq) = Cardinality(set) /\ S(seq) = set

Start(x) == EmptyGraph(x.dir, x.n)

\* edges as listed by the graph: any orientation if undirected
ListsEdges(g, seq, set) == Len(seq) = Cardinality(set) /\ {Canon(g, seq[i]) : i \in 1..Len(seq)} = set

EdgeLookup(g, q) ==  \* q = <<u, v, found, edge>>
  LET b == Between(g, q[1], q[2])
  IN IF Cardinality(b) = 1 THEN q[3] = 1 /\ {Canon(g, q[4])} = b ELSE q[3] = 0

Bad(g, e) ==
  CASE e.op = "add_vertex" -> Fail("next-vertex-id", e.u = g.nxt)
    [] e.op = "add_edge" ->
         Fail("added-flag", e.added = 1)
         \cup Fail("endpoints", <<e.e[1], e.e[2]>> \in {<<e.u, e.v>>} \cup (IF g.dir THEN {} ELSE {<<e.v, e.u>>}))
         \cup Fail("fresh-descriptor", Canon(g, e.e) \notin g.es)
    [] e.op \in {"remove_edge", "remove_vertex", "clear", "stale"} -> {}
    [] e.op = "vertices" -> Fail("vertices", Lists(e.r, g.vs))
    [] e.op = "num_vertices" -> Fail("num_vertices", e.r = Cardinality(g.vs))
    [] e.op = "has_vertex" -> Fail("has_vertex", e.r = (IF g.vs = {} THEN 0 ELSE 1))
    [] e.op = "edges" -> Fail("edges", ListsEdges(g, e.r, g.es))
    [] e.op = "num_edges" -> Fail("num_edges", e.r = Cardinality(g.es))
    [] e.op = "has_edge" -> Fail("has_edge", e.r = (IF g.es = {} THEN 0 ELSE 1))
    [] e.op = "out_edges" -> Fail("out_edges", Lists(e.r, OutEdges(g, e.u)))
    [] e.op = "out_degree" -> Fail("out_degree", e.r = OutDegree(g, e.u))
    [] e.op = "in_edges" -> Fail("in_edges", IF g.dir THEN Lists(e.r, InEdges(g, e.u))
                                             ELSE ListsEdges(g, e.r, {Canon(g, x) : x \in InEdges(g, e.u)}))
    [] e.op = "in_degree" -> Fail("in_degree", e.r = InDegree(g, e.u))
    [] e.op = "edge" -> Fail("edge-lookup", EdgeLookup(g, e.q))
    [] e.op = "is_directed" -> Fail("is_directed", e.r = (IF g.dir THEN 1 ELSE 0))
    [] e.op = "ends" -> Fail("source-target", e.s = e.e[1] /\ e.t = e.e[2])
    [] e.op = "cmp" -> \* descriptor equality, hash and order between two present edges
         Fail("descriptor-eq", (e.eq = 1) = (e.a = e.b))
         \cup Fail("descriptor-hash", e.a = e.b => e.hash = 1)
         \cup Fail("descriptor-set", e.inset = (IF e.a = e.b THEN 1 ELSE 0))
         \cup Fail("descriptor-lt", IF e.a = e.b THEN e.lt = 0 /\ e.gt = 0 ELSE e.lt + e.gt = 1)
    [] OTHER -> {"unknown-op"}

Step(g, e) ==
  CASE e.op = "add_vertex" -> AddVertex(g)
    [] e.op = "add_edge" -> AddEdge(g, e.e)
    [] e.op = "remove_edge" -> RemoveEdge(g, e.e)
    [] e.op = "remove_vertex" -> RemoveVertex(g, e.u)
    [] e.op = "clear" -> Clear(g)
    [] OTHER -> g

Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
