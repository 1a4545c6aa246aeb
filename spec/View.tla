-------------------------------- MODULE View --------------------------------
(***************************************************************************)
(* Views over a multigraph.  A state is a graph g and a sequence ws of     *)
(* views: [k |-> "base", v, e] declares the vertices v and the edges e     *)
(* relevant (v = {-1}: all vertices; e = {<<-1>>}: all edges);             *)
(* [k |-> "or"/"and"/"sub", i, j] combines views i and j.                  *)
(***************************************************************************)
EXTENDS Multigraph, Integers

AllV == {-1}
AllE == {<<-1>>}
Base(v, e) == [k |-> "base", v |-> v, e |-> e, i |-> 0, j |-> 0]
Combo(k, i, j) == [k |-> k, v |-> {}, e |-> {}, i |-> i, j |-> j]

RECURSIVE RelV(_, _, _)
RelV(ws, i, u) ==
  LET w == ws[i] IN
  CASE w.k = "base" -> w.v = AllV \/ u \in w.v
    [] w.k = "or"  -> RelV(ws, w.i, u) \/ RelV(ws, w.j, u)
    [] w.k = "and" -> RelV(ws, w.i, u) /\ RelV(ws, w.j, u)
    [] w.k = "sub" -> RelV(ws, w.i, u) /\ ~RelV(ws, w.j, u)
\* e in stored form.  The difference keeps an edge of the first view unless the second
\* declares it together with one of its endpoints.
RECURSIVE RelE(_, _, _)
RelE(ws, i, e) ==
  LET w == ws[i] IN
  CASE w.k = "base" -> w.e = AllE \/ e \in w.e
    [] w.k = "or"  -> RelE(ws, w.i, e) \/ RelE(ws, w.j, e)
    [] w.k = "and" -> RelE(ws, w.i, e) /\ RelE(ws, w.j, e)
    [] w.k = "sub" -> RelE(ws, w.i, e) /\ (~RelE(ws, w.j, e) \/ (~RelV(ws, w.j, e[1]) /\ ~RelV(ws, w.j, e[2])))

ShownV(s, i) == {u \in s.g.vs : RelV(s.ws, i, u)}
ShownE(s, i) == {e \in s.g.es : RelE(s.ws, i, e) /\ RelV(s.ws, i, e[1]) /\ RelV(s.ws, i, e[2])}
\* the graph that a view denotes
Denotes(s, i) == [s.g EXCEPT !.vs = ShownV(s, i), !.es = ShownE(s, i)]

RECURSIVE ReachFix(_, _)
ReachFix(g, us) == LET n == us \cup UNION {{e[2] : e \in OutEdges(g, u)} : u \in us}
                   IN IF n = us THEN us ELSE ReachFix(g, n)

(* --------------------------------------------------------- mutators ---- *)
OnGraph(s, g2) == [s EXCEPT !.g = g2]
\* declarations of base views about a vertex or an edge
DeclV(s, i, u, b) == [s EXCEPT !.ws[i].v = IF @ = AllV THEN @ ELSE IF b THEN @ \cup {u} ELSE @ \ {u}]
DeclE(s, i, e, b) == [s EXCEPT !.ws[i].e = IF @ = AllE THEN @ ELSE IF b THEN @ \cup {e} ELSE @ \ {e}]

(* --------------------------------------------------------- theorems ---- *)
ViewWF(s) == \A i \in 1..Len(s.ws) : \A e \in ShownE(s, i) : e[1] \in ShownV(s, i) /\ e[2] \in ShownV(s, i)
ComboOK(s) == \A i \in 1..Len(s.ws) : LET w == s.ws[i] IN
  /\ w.k = "and" => ShownV(s, i) = ShownV(s, w.i) \cap ShownV(s, w.j) /\ ShownE(s, i) = ShownE(s, w.i) \cap ShownE(s, w.j)
  /\ w.k = "or"  => ShownV(s, i) = ShownV(s, w.i) \cup ShownV(s, w.j) /\ ShownE(s, w.i) \cup ShownE(s, w.j) \subseteq ShownE(s, i)
  /\ w.k = "sub" => ShownV(s, i) = ShownV(s, w.i) \ ShownV(s, w.j)
                    /\ ShownE(s, i) = {e \in ShownE(s, w.i) : e[1] \in ShownV(s, i) /\ e[2] \in ShownV(s, i)}
=============================================================================
