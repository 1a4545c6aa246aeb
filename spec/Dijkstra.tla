------------------------------ MODULE Dijkstra ------------------------------
(***************************************************************************)
(* Dijkstra's algorithm over a totally ordered path algebra.  Edges are    *)
(* <<u, v, k>> (oriented); w is a function from edges to weights.          *)
(* Algebras: "plus" (least sum; also products of probabilities, taken as   *)
(* sums of exponents), "max" (least bottleneck), "min" (widest path).      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
INF == 100000000
Zero(alg)  == IF alg = "min" THEN INF ELSE 0
Worst(alg) == IF alg = "min" THEN 0 ELSE INF
Better(alg, a, b) == IF alg = "min" THEN a > b ELSE a < b
Comb(alg, a, b) == CASE alg = "plus" -> (IF a = INF \/ b = INF THEN INF ELSE a + b)
                     [] alg = "max" -> (IF a > b THEN a ELSE b)
                     [] alg = "min" -> (IF a < b THEN a ELSE b)
Best(alg, S) == CHOOSE a \in S : \A b \in S : ~Better(alg, b, a)

\* out: function from vertices to sets of oriented edges
Begin(alg, vs, out, w, s) ==
  [alg |-> alg, vs |-> vs, out |-> out, w |-> w, s |-> s,
   dist |-> [v \in vs |-> IF v = s THEN Zero(alg) ELSE Worst(alg)], front |-> {s}, seen |-> {}, last |-> -1]

CanExamine(d, u) == u \in d.front /\ \A x \in d.front : ~Better(d.alg, d.dist[x], d.dist[u])
\* examining u relaxes all edges that leave it
Examine(d, u) ==
  LET o == d.out[u]
      cand(v) == {Comb(d.alg, d.dist[u], d.w[e]) : e \in {x \in o : x[2] = v}}
      tg == {e[2] : e \in o}
      nd == [v \in d.vs |-> IF v \in tg THEN Best(d.alg, cand(v) \cup {d.dist[v]}) ELSE d.dist[v]]
  IN [d EXCEPT !.dist = nd, !.seen = @ \cup {u}, !.last = u,
               !.front = (@ \ {u}) \cup {v \in tg : v \notin d.seen /\ v # u /\ Better(d.alg, nd[v], Worst(d.alg))}]
Finished(d) == d.front = {}

\* the edges that end a best path to v (v # s)
Tight(d, v) == {e \in UNION {d.out[u] : u \in d.seen} : e[2] = v /\ Comb(d.alg, d.dist[e[1]], d.w[e]) = d.dist[v]}
RECURSIVE Back(_, _, _)
\* the edges on best paths to the vertices in T, found backwards
Back(d, T, done) == IF T = {} THEN {} ELSE
  LET es == UNION {Tight(d, v) : v \in T \ {d.s}}
      nt == {e[1] : e \in es} \ (done \cup T)
  IN es \cup Back(d, nt, done \cup T)
RECURSIVE Cost(_, _, _)
Cost(d, p, c) == IF p = <<>> THEN c ELSE Cost(d, Tail(p), Comb(d.alg, c, d.w[Head(p)]))
IsPath(d, p, s, t) == IF p = <<>> THEN s = t
                      ELSE /\ p[1][1] = s /\ p[Len(p)][2] = t
                           /\ \A i \in 1..Len(p) : p[i] \in DOMAIN d.w
                           /\ \A i \in 1..(Len(p)-1) : p[i][2] = p[i+1][1]
BestPath(d, p, t, dt) == IsPath(d, p, d.s, t) /\ Cost(d, p, Zero(d.alg)) = dt
=============================================================================
