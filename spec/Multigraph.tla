----------------------------- MODULE Multigraph -----------------------------
(***************************************************************************)
(* The abstract data type behind nokia/PyBGL's graphs: a (directed or      *)
(* undirected) multigraph as a value, its mutators as functions on that    *)
(* value, and its observers.                                               *)
(*                                                                         *)
(* An edge is <<s, t, k>>: endpoints and a key telling parallel edges      *)
(* apart.  Undirected edges are stored with s <= t.                        *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

EmptyGraph(dir, n) == [dir |-> dir, vs |-> 0..(n-1), nxt |-> n, es |-> {}]

Flip(e) == <<e[2], e[1], e[3]>>
\* the stored form of an edge given in any orientation
Canon(g, e) == IF g.dir \/ e[1] <= e[2] THEN e ELSE Flip(e)
\* the edges between two vertices
Between(g, u, v) == {e \in g.es : <<e[1], e[2]>> = <<u, v>> \/ (~g.dir /\ <<e[1], e[2]>> = <<v, u>>)}

(* --------------------------------------------------------- mutators ---- *)
AddVertex(g)       == [g EXCEPT !.vs = @ \cup {g.nxt}, !.nxt = @ + 1]
AddEdge(g, e)      == [g EXCEPT !.es = @ \cup {Canon(g, e)}]
RemoveEdge(g, e)   == [g EXCEPT !.es = @ \ {Canon(g, e)}]
RemoveVertex(g, u) == [g EXCEPT !.vs = @ \ {u}, !.es = {e \in @ : e[1] # u /\ e[2] # u}]
Clear(g)           == EmptyGraph(g.dir, 0)

(* -------------------------------------------------------- observers ---- *)
\* edges leaving u, oriented away from u
OutEdges(g, u) == {e \in g.es : e[1] = u}
                  \cup (IF g.dir THEN {} ELSE {Flip(e) : e \in {x \in g.es : x[2] = u}})
\* edges entering u (for an undirected graph: the same as the edges leaving u)
InEdges(g, u) == IF g.dir THEN {e \in g.es : e[2] = u} ELSE OutEdges(g, u)
OutDegree(g, u) == Cardinality(OutEdges(g, u))
InDegree(g, u)  == Cardinality(InEdges(g, u))

RECURSIVE SumOver(_, _)
SumOver(F(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN F(x) + SumOver(F, S \ {x})

(* ------------------------------------------------ theorems (checked) --- *)
WellFormed(g) ==
  /\ \A v \in g.vs : v < g.nxt
  /\ \A e \in g.es : e[1] \in g.vs /\ e[2] \in g.vs
  /\ ~g.dir => \A e \in g.es : e[1] <= e[2]
Incidence(g) ==
  /\ g.dir => \A u \in g.vs, v \in g.vs : OutEdges(g, u) \cap InEdges(g, v) = Between(g, u, v)
  /\ ~g.dir => \A u \in g.vs, v \in g.vs :
        {e[3] : e \in {x \in OutEdges(g, u) : x[2] = v}} = {e[3] : e \in {x \in OutEdges(g, v) : x[2] = u}}
Handshake(g) ==
  LET loops == Cardinality({e \in g.es : e[1] = e[2]})
      o(u) == OutDegree(g, u)  i(u) == InDegree(g, u)
  IN /\ SumOver(o, g.vs) = IF g.dir THEN Cardinality(g.es) ELSE 2 * Cardinality(g.es) - loops
     /\ SumOver(i, g.vs) = SumOver(o, g.vs)
=============================================================================
