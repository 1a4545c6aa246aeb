----------------------------- MODULE BkTreeTrace -----------------------------
(* Histories of BK-trees. State: [d, t]. *)
EXTENDS BkTree, TLC, Json, IOUtils, Edit
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
\* x.words: elements are words under an edit distance; else x.d is given
Start(x) == LET n == IF x.kind = "table" THEN Len(x.d) ELSE Len(x.words)
                d == IF x.kind = "table" THEN x.d
                     ELSE [i \in 1..n |-> [j \in 1..n |-> IF x.kind = "lev" THEN Lev(x.words[i], x.words[j]) ELSE Lcs(x.words[i], x.words[j])]]
            IN IF IsMetric(d) THEN [d |-> d, t |-> NoTree] ELSE Assert(FALSE, <<"not a metric", d>>)
\* the observed tree: nodes 1.., parents before children, edges <<parent, label, child>>
Seen(e) == [el |-> e.el,
            up |-> [v \in 1..Len(e.el) |-> LET x == {i \in 1..Len(e.edges) : e.edges[i][3] = v} IN IF x = {} THEN 0 ELSE e.edges[CHOOSE i \in x : TRUE][1]],
            lab |-> [v \in 1..Len(e.el) |-> LET x == {i \in 1..Len(e.edges) : e.edges[i][3] = v} IN IF x = {} THEN 0 ELSE e.edges[CHOOSE i \in x : TRUE][2]]]
Links(t) == {<<IF t.up[v] = 0 THEN 0 ELSE t.el[t.up[v]], t.lab[v], t.el[v]>> : v \in NodesOf(t)}
Bad(s, e) ==
  CASE e.op = "insert" -> LET n == Insert(s.t, s.d, e.x) IN
         Fail("returned-node", e.el = e.x /\ e.same = 1) \cup Fail("new-node", (e.new = 1) <=> Len(n.el) > Len(s.t.el))
    [] e.op = "make" -> {}
    [] e.op = "tree" -> LET t == Seen(e) IN
         IF Len(e.edges) + 1 # Len(e.el) /\ e.el # <<>> THEN {"not-a-tree"}
         ELSE IF ~ \A i \in 1..Len(e.edges) : e.edges[i][1] \in 1..Len(e.el) /\ e.edges[i][3] \in 1..Len(e.el) /\ e.edges[i][1] < e.edges[i][3] THEN {"not-a-tree"}
         ELSE Fail("stored-elements", S(t.el) = S(s.t.el) /\ Len(t.el) = Len(s.t.el))
              \cup Fail("sub-tree-at-its-distance", ShapeOK(t, s.d))
              \cup Fail("tree-of-the-insertions", Links(t) = Links(s.t))
    [] e.op = "search" -> LET r == Nearest(s.t, s.d, e.x, e.m, IF e.from = 0 THEN 1 ELSE CHOOSE v \in NodesOf(s.t) : s.t.el[v] = e.from) IN
         IF r = {} THEN Fail("found-nothing-expected", e.r = <<>>) ELSE Fail("nearest", e.r \in r)
    [] e.op = "nothing" -> Fail("found-in-an-empty-tree", e.r = <<>>)
    [] OTHER -> {"unknown-op"}
RECURSIVE All(_, _, _)
All(t, d, xs) == IF xs = <<>> THEN t ELSE All(Insert(t, d, Head(xs)), d, Tail(xs))
Step(s, e) == CASE e.op = "insert" -> [s EXCEPT !.t = Insert(@, s.d, e.x)]
                [] e.op = "make" -> [s EXCEPT !.t = All(@, s.d, e.xs)]
                [] OTHER -> s
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
