---------------------------- MODULE DijkstraModel ---------------------------
(* Every run on every small weighted graph, against the best over all simple paths. *)
EXTENDS Dijkstra, TLC
CONSTANTS N, Ws, MaxE, Algs, Loops
VARIABLES d
V == 0..(N-1)
Arcs == {<<u, v, k>> : u \in V, v \in V, k \in Ws} \ (IF Loops THEN {} ELSE {<<u, u, k>> : u \in V, k \in Ws})
Init == \E es \in {x \in SUBSET Arcs : Cardinality(x) <= MaxE}, a \in Algs :
          d = Begin(a, V, [u \in V |-> {e \in es : e[1] = u}], [e \in es |-> e[3]], 0)
Next == \E u \in V : CanExamine(d, u) /\ d' = Examine(d, u)
Spec == Init /\ [][Next]_d
\* ---- independent definition: best over the paths of at most N-1 edges
Es == DOMAIN d.w
RECURSIVE Paths(_)
Paths(k) == IF k = 0 THEN {<<>>} ELSE
  LET P == Paths(k - 1) IN P \cup UNION {{Append(p, e) : e \in {x \in Es : x[1] = (IF p = <<>> THEN 0 ELSE p[Len(p)][2])}} : p \in {q \in P : Len(q) = k - 1}}
To(P, v) == {p \in P : (IF p = <<>> THEN 0 ELSE p[Len(p)][2]) = v}
True(P, v) == Best(d.alg, {Cost(d, p, Zero(d.alg)) : p \in To(P, v)} \cup {Worst(d.alg)})
EndOK == Finished(d) =>
  LET P == Paths(N - 1) IN
  /\ \A v \in V : d.dist[v] = True(P, v)
  /\ d.seen = {v \in V : To(P, v) # {}}
  \* for positive sums the tight edges are those ending a shortest path, and their backward closure those lying on one
  /\ d.alg = "plus" /\ 0 \notin Ws => LET Opt(v) == {p \in To(P, v) : Cost(d, p, 0) = d.dist[v]} IN
       \A v \in V \ {0} : /\ Tight(d, v) = {p[Len(p)] : p \in Opt(v) \ {<<>>}}
                          /\ Back(d, {v}, {}) = UNION {{p[i] : i \in 1..Len(p)} : p \in Opt(v)}
  /\ \A v \in d.seen : \E p \in To(P, v) : BestPath(d, p, v, d.dist[v]) /\ \A i \in 1..Len(p) : p[i] \in Back(d, {v}, {}) \cup {x \in Es : x[2] = 0}
\* what was examined is settled, and examined in order
Settled == [][/\ d'.seen # d.seen /\ d.last # -1 => ~Better(d.alg, d.dist[d'.last], d.dist[d.last])
              /\ \A v \in d.seen : d'.dist[v] = d.dist[v]]_d
NotStuck == Finished(d) \/ \E u \in V : CanExamine(d, u)
=============================================================================
