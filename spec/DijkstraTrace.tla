---------------------------- MODULE DijkstraTrace ---------------------------
(* Recorded runs of dijkstra_shortest_paths / dijkstra_shortest_path: runs of Dijkstra. *)
EXTENDS Dijkstra, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
Flip(e) == <<e[2], e[1], e[3]>>
Start(x) ==
  LET es == S(x.es)
      all == IF x.dir THEN es ELSE es \cup {Flip(e) : e \in es}
      wt == [i \in 1..Len(x.es) |-> x.ws[i]]
      at(e) == CHOOSE i \in 1..Len(x.es) : x.es[i] = e \/ (~x.dir /\ x.es[i] = Flip(e))
  IN Begin(x.alg, S(x.vs), TLCEval([u \in S(x.vs) |-> {e \in all : e[1] = u}]), TLCEval([e \in all |-> wt[at(e)]]), x.s)
Bad(d, e) ==
  CASE e.op = "exam" -> Fail("examined-out-of-order", e.u \in d.vs /\ CanExamine(d, e.u))
    [] e.op = "end" -> Fail("not-all-examined", Finished(d))
    [] e.op = "dist" -> UNION {Fail("distance", e.r[i][2] = d.dist[e.r[i][1]]) : i \in 1..Len(e.r)}
    [] e.op = "preds" -> UNION {Fail("predecessor-edges", Cardinality(Tight(d, e.r[i][1])) = Len(e.r[i][2]) /\ S(e.r[i][2]) = Tight(d, e.r[i][1])) : i \in 1..Len(e.r)}
    [] e.op = "path" -> Fail("extracted-path", d.dist[e.t] # Worst(d.alg) /\ BestPath(d, e.r, e.t, d.dist[e.t]))
    [] e.op = "dag" -> Fail("all-shortest-paths", LET b == Back(d, {e.t}, {}) IN Len(e.r) = Cardinality(b) /\ S(e.r) = b)
    \* the edges of one best path, in any order
    [] e.op = "single" -> Fail("single-shortest-path",
         /\ Cardinality(S(e.r)) = Len(e.r)
         /\ IF d.dist[e.t] = Worst(d.alg) THEN e.r = <<>>
            ELSE LET from(v) == {x \in S(e.r) : x[1] = v}
                     RECURSIVE Walk(_, _)
                     Walk(v, k) == IF k = 0 \/ Cardinality(from(v)) # 1 THEN <<>>
                                   ELSE LET x == CHOOSE x \in from(v) : TRUE IN <<x>> \o Walk(x[2], k - 1)
                     p == Walk(d.s, Len(e.r))
                 IN Len(p) = Len(e.r) /\ BestPath(d, p, e.t, d.dist[e.t]))
    \* point to point: stops when the target is about to be examined
    [] e.op = "p2p" -> IF e.found = 0 THEN Fail("target-missed", Finished(d) /\ d.dist[e.t] = Worst(d.alg))
                       ELSE Fail("point-to-point-path", CanExamine(d, e.t) /\ BestPath(d, e.r, e.t, d.dist[e.t]))
    [] OTHER -> {"unknown-op"}
Step(d, e) == IF e.op = "exam" THEN Examine(d, e.u) ELSE d
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
