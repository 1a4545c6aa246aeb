--------------------------- MODULE ComponentsTrace --------------------------
(* Answers of strong_components and topological_sort. *)
EXTENDS Components, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
Start(x) == [vs |-> S(x.vs), arcs |-> {<<e[1], e[2]>> : e \in S(x.es)}]
Bad(g, e) ==
  CASE e.op = "scc" -> LET comp == TLCEval([v \in g.vs |-> (CHOOSE i \in 1..Len(e.r) : e.r[i][1] = v)])
                           c == TLCEval([v \in g.vs |-> e.r[comp[v]][2]])
                       IN Fail("numbers", {c[v] : v \in g.vs} = 0..(e.n-1))
                          \cup Fail("not-descending", Descends(g.arcs, c))
                          \cup Fail("not-strongly-connected", \A i \in {c[v] : v \in g.vs} : ClassConnected(g.vs, g.arcs, c, i))
    [] e.op = "topo" -> Fail("not-a-topological-order", TopoSorted(g.vs, g.arcs, e.r))
                        \cup Fail("not-the-given-sequence", e.same = 1)
    [] e.op = "refused" -> Fail("acyclic-graph-refused", ~Acyclic(g.vs, g.arcs))
    [] OTHER -> {"unknown-op"}
Step(g, e) == g
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
