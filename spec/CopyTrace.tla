----------------------------- MODULE CopyTrace ------------------------------
(* Answers of graph_copy, automaton_copy, graph_extract and cut. *)
EXTENDS Copy, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
Start(x) == [dir |-> x.dir, vs |-> S(x.vs), es |-> x.es, s |-> x.s, vrel |-> S(x.vrel), erel |-> S(x.erel)]
\* sequences of <<key, value...>> as functions
IsFun(q) == Cardinality({q[i][1] : i \in 1..Len(q)}) = Len(q)
Fun(q) == TLCEval([k \in {q[i][1] : i \in 1..Len(q)} |-> LET i == CHOOSE j \in 1..Len(q) : q[j][1] = k IN q[i][2]])
Untouched(x, e) == Len(e.ovs) = Cardinality(x.vs) /\ S(e.ovs) = x.vs /\ Len(e.oes) = Len(x.es) /\ S(e.oes) = EdgeIds(x)
BadCopy(x, e) ==
  IF ~IsFun(e.cv) THEN {"vertex-reported-twice"}
  ELSE IF ~IsFun(e.ce) THEN {"edge-reported-twice"}
  ELSE LET m == Fun(e.cv)  em == Fun(e.ce) IN
       Fail("vertices-copied", DOMAIN m = PartV(x)) \cup Fail("edges-copied", DOMAIN em = PartE(x))
       \cup Fail("not-a-copy", IsCopy(x, m, em, S(e.dvs), S(e.des)))
       \cup Fail("listed-twice", Len(e.dvs) = Cardinality(S(e.dvs)) /\ Len(e.des) = Cardinality(S(e.des)))
       \cup Fail("labels", \A i \in 1..Len(e.lab) : e.lab[i][2] = e.lab[i][1])
       \cup Fail("vertex-map", e.maps = 0 \/ (IsFun(e.pv) /\ Fun(e.pv) = m))
       \cup Fail("edge-map", e.maps = 0 \/ (IsFun(e.pe) /\ Fun(e.pe) = em))
       \cup Fail("callback-arguments", e.args = 1)
\* what the receiving graph and the maps held before, taken away
Minus(q, r) == SelectSeq(q, LAMBDA y : y \notin S(r))
Fresh(e) == [e EXCEPT !.dvs = Minus(@, e.dvs0), !.des = Minus(@, e.des0), !.pv = Minus(@, e.pv0), !.pe = Minus(@, e.pe0)]
Bad(x, e) ==
  CASE e.op = "copyinto" -> BadCopy(x, Fresh(e)) \cup Fail("original-changed", Untouched(x, e))
                            \cup Fail("receiving-graph-changed", S(e.dvs0) \subseteq S(e.dvs) /\ S(e.des0) \subseteq S(e.des))
    [] e.op = "copy" -> BadCopy(x, e) \cup Fail("original-changed", Untouched(x, e))
    [] e.op = "copynocb" -> Fail("sizes", Len(e.dvs) = Cardinality(PartV(x)) /\ Len(e.des) = Cardinality(PartE(x)))
                            \cup Fail("original-changed", Untouched(x, e))
    [] e.op = "extract" -> Fail("vertices", Len(e.v) = Cardinality(PartV(x)) /\ S(e.v) = PartV(x))
                           \cup Fail("edges", Len(e.e) = Cardinality(PartE(x)) /\ S(e.e) = PartE(x))
                           \cup Fail("callback-arguments", e.args = 1)
                           \cup Fail("original-changed", Untouched(x, e))
    [] e.op = "cut" -> Fail("vertex-cut", Len(e.r) = Cardinality(S(e.r)) /\ S(e.r) = VertexCut(x, S(e.c)))
                       \cup Fail("original-changed", Untouched(x, e))
    [] OTHER -> {"unknown-op"}
Step(x, e) == x
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
