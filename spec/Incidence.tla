------------------------------ MODULE Incidence ------------------------------
(***************************************************************************)
(* Graphs and automata with incoming edges, on top of Multigraph.          *)
(*   kind "plain" : an edge <<q, r, k>> with a fresh key k                  *)
(*   kind "edge"  : a transition <<q, r, a>>; at most one per <<q, a>>      *)
(*   kind "node"  : a transition <<q, r, a>> with a the symbol of r; at     *)
(*                  most one per <<q, a>>                                   *)
(* `rev' tells whether the graph is currently presented reversed.           *)
(***************************************************************************)
EXTENDS Multigraph
StartState(kind, n) == [g |-> EmptyGraph(TRUE, n), kind |-> kind, sym |-> [v \in 0..(n-1) |-> 0], rev |-> FALSE]
\* is a new edge with this key/label out of q admissible?
Admissible(s, q, a) == s.kind = "plain" \/ \A e \in s.g.es : ~(e[1] = q /\ e[3] = a)
See(s, e) == IF s.rev THEN Flip(e) ELSE e
SeenEdges(s) == {See(s, e) : e \in s.g.es}
SeenOut(s, u) == {e \in SeenEdges(s) : e[1] = u}
SeenIn(s, u)  == {e \in SeenEdges(s) : e[2] = u}
Mirror(s) == /\ UNION {SeenOut(s, u) : u \in s.g.vs} = SeenEdges(s)
             /\ UNION {SeenIn(s, u) : u \in s.g.vs} = SeenEdges(s)
             /\ \A u \in s.g.vs : SeenOut(s, u) = {Flip(e) : e \in SeenIn([s EXCEPT !.rev = ~@], u)}
AddV(s, a) == [s EXCEPT !.g = AddVertex(@), !.sym = [v \in DOMAIN @ \cup {s.g.nxt} |-> IF v = s.g.nxt THEN a ELSE @[v]]]
AddE(s, e) == [s EXCEPT !.g = AddEdge(@, e)]
DelE(s, e) == [s EXCEPT !.g = RemoveEdge(@, e)]
DelV(s, u) == [s EXCEPT !.g = RemoveVertex(@, u)]
ClearAll(s) == [s EXCEPT !.g = Clear(@), !.sym = <<>>]
Reverse(s) == [s EXCEPT !.rev = ~@]
=============================================================================
