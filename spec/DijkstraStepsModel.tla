--------------------------- MODULE DijkstraStepsModel ---------------------------
(***************************************************************************)
(* Every run, edge by edge, on every small weighted graph: it is a run of  *)
(* Dijkstra, vertex by vertex. Lazy = TRUE: an edge of equal cost also     *)
(* puts its target back into the queue.                                    *)
(***************************************************************************)
EXTENDS DijkstraSteps, TLC
CONSTANTS N, Ws, MaxE, Algs, Lazy
VARIABLES f, cnt
V == 0..(N - 1)
Arcs == {<<u, v, k>> : u \in V, v \in V, k \in Ws}
Init == /\ cnt = [v \in V |-> 0]
        /\ \E es \in {x \in SUBSET Arcs : Cardinality(x) <= MaxE}, a \in Algs :
             f = [Fine(Begin(a, V, [u \in V |-> {e \in es : e[1] = u}], [e \in es |-> e[3]], 0)) EXCEPT !.init = {}]
Act(k, x) == CanStep(f, k, x) /\ f' = DoStep(f, k, x) /\ cnt' = (IF k = "exam" THEN [cnt EXCEPT ![x] = @ + 1] ELSE cnt)
Again == Lazy /\ f.e # <<>> /\ f.pend = {{"rel", "norel"}} /\ f.e[2] \in f.disc /\ f.e[2] \notin f.front /\ cnt[f.e[2]] < 3
         /\ f' = [f EXCEPT !.pend = {}, !.front = @ \cup {f.e[2]}] /\ UNCHANGED cnt
Next == \/ \E v \in V : Act("exam", v) \/ Act("disc", v) \/ Act("fin", v)
        \/ \E e \in DOMAIN f.d.w : Act("edge", e) \/ Act("rel", e) \/ Act("norel", e)
        \/ Again
Spec == Init /\ [][Next]_<<f, cnt>>
Between == f.cur = -1
Refines == Between => f.dist = f.d.dist /\ f.front = f.d.front /\ f.seen = f.d.seen
Coarse == [][f.cur = -1 /\ f'.cur # -1 => CanExamine(f.d, f'.cur)]_<<f, cnt>>
Once == \A v \in V : cnt[v] <= 1
Discovered == /\ f.front \subseteq f.disc \cup {f.d.s}
              /\ \A v \in V \ {f.d.s} : cnt[v] > 0 => v \in f.disc
              /\ Between => f.disc = {v \in V \ {f.d.s} : Better(f.d.alg, f.dist[v], Worst(f.d.alg))}
\* the last edge to improve a vertex ends a best path to it
LastRelaxed == Between => \A v \in f.disc : f.rel[v] \in Tight(f.d, v)
NotStuck == CanStep(f, "end", -1) \/ ENABLED Next
=============================================================================
