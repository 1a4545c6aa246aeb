------------------------------ MODULE DijkstraSteps ------------------------------
(***************************************************************************)
(* Dijkstra's algorithm edge by edge, as its visitor sees it. d is the     *)
(* state of Dijkstra after the last vertex finished; inside the            *)
(* examination of cur: dist the distances so far, todo the edges left, e   *)
(* the edge under examination and pend the events it still owes (one of    *)
(* each group).                                                            *)
(***************************************************************************)
EXTENDS Dijkstra
Fine(d) == [d |-> d, init |-> d.vs, dist |-> d.dist, disc |-> {}, cur |-> -1, todo |-> {}, pend |-> {}, e |-> <<>>, seen |-> {}, front |-> {d.s}, rel |-> [v \in d.vs |-> <<>>]]
\* the events an edge owes: sets of alternatives
Owes(f, e) == LET v == e[2]
                  w == Comb(f.d.alg, f.dist[f.cur], f.d.w[e])
              IN IF Better(f.d.alg, w, f.dist[v])
                 THEN {{"rel"}} \cup (IF v \in f.disc \/ v = f.d.s THEN {} ELSE {{"disc"}})
                 ELSE IF w = f.dist[v] THEN {{"rel", "norel"}} ELSE {{"norel"}}
CanStep(f, k, x) ==
  CASE k = "init" -> x \in f.init /\ f.seen = {} /\ f.cur = -1
    [] k = "exam" -> f.init = {} /\ f.cur = -1 /\ x \in f.front /\ \A y \in f.front : ~Better(f.d.alg, f.dist[y], f.dist[x])
    [] k = "edge" -> f.cur # -1 /\ f.pend = {} /\ x \in f.todo
    [] k = "disc" -> {"disc"} \in f.pend /\ x = (IF f.e = <<>> THEN -1 ELSE f.e[2])
    [] k \in {"rel", "norel"} -> x = f.e /\ \E g \in f.pend : k \in g
    [] k = "fin" -> f.cur = x /\ f.todo = {} /\ f.pend = {}
    [] k = "end" -> f.init = {} /\ f.cur = -1 /\ f.front = {}
    [] OTHER -> FALSE
DoStep(f, k, x) ==
  CASE k = "init" -> [f EXCEPT !.init = @ \ {x}]
    [] k = "exam" -> [f EXCEPT !.cur = x, !.todo = f.d.out[x], !.front = @ \ {x}]
    [] k = "edge" ->
         LET w == Comb(f.d.alg, f.dist[f.cur], f.d.w[x])
             up == Better(f.d.alg, w, f.dist[x[2]])
         IN [f EXCEPT !.todo = @ \ {x}, !.e = x, !.pend = Owes(f, x),
                      !.dist[x[2]] = IF up THEN w ELSE @, !.rel[x[2]] = IF up THEN x ELSE @]
    [] k = "disc" -> [f EXCEPT !.pend = @ \ {{"disc"}}, !.disc = @ \cup {x}, !.front = @ \cup {x}]
    [] k \in {"rel", "norel"} -> [f EXCEPT !.pend = {g \in @ : k \notin g}]
    [] k = "fin" -> [f EXCEPT !.cur = -1, !.e = <<>>, !.seen = @ \cup {x}, !.d = Examine(@, x)]
    [] OTHER -> f
\* the colours and the distances that a visitor can see, on the vertex of the event or on the target of its edge
\* (the source is white until its examination ends, unless an edge leads back to it)
SeenColours(f, k, x) ==
  LET v == IF k \in {"exam", "disc", "fin"} THEN x ELSE x[2] IN
  IF k = "fin" \/ v \in f.seen THEN {2}
  ELSE IF k = "disc" THEN {1}
  ELSE IF v = f.d.s THEN {0, 1}
  ELSE IF v \in f.disc THEN {1}
  ELSE IF {"disc"} \in f.pend THEN {0, 1} ELSE {0}
SeenDist(f, k, x) == f.dist[IF k \in {"exam", "disc", "fin"} THEN x ELSE x[2]]
=============================================================================
