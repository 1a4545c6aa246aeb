--------------------------- MODULE MultigraphModel --------------------------
(***************************************************************************)
(* The state machine of Multigraph: every history over at most MaxId       *)
(* vertex identifiers and MaxEdges simultaneous edges.  Emit prints every  *)
(* transition, from which the driver builds operation sequences that cover *)
(* all of them and replays them on the real classes.                       *)
(*                                                                         *)
(* The second half is the representation used by the library (an out-      *)
(* adjacency and, for incidence graphs, an in-adjacency, both updated by   *)
(* each mutator); ReprOK states that it always denotes the abstract graph. *)
(***************************************************************************)
EXTENDS Multigraph, TLC, Json
CONSTANTS Dir, MaxId, MaxEdges, Keys, N0
VARIABLES g, adj, inadj, act
vars == <<g, adj, inadj, act>>

Pairs(dom) == dom \X dom
Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE {}
Put(f, x, s) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN s ELSE f[y]]
\* forget the pairs that satisfy a predicate
Drop(f, bad(_)) == [y \in {z \in DOMAIN f : ~bad(z)} |-> f[y]]

Init == /\ g = EmptyGraph(Dir, N0)
        /\ adj = <<>> /\ inadj = <<>>
        /\ act = <<"init">>

AV == /\ g.nxt < MaxId
      /\ g' = AddVertex(g)
      /\ act' = <<"av", g.nxt>>
      /\ UNCHANGED <<adj, inadj>>
AE == \E u \in g.vs, v \in g.vs, k \in Keys :
      /\ Cardinality(g.es) < MaxEdges
      /\ Dir \/ u <= v
      /\ <<u, v, k>> \notin g.es
      /\ g' = AddEdge(g, <<u, v, k>>)
      /\ adj' = LET a1 == Put(adj, <<u, v>>, Get(adj, <<u, v>>) \cup {k})
                IN IF Dir THEN a1 ELSE Put(a1, <<v, u>>, Get(a1, <<v, u>>) \cup {k})
      /\ inadj' = IF Dir THEN Put(inadj, <<v, u>>, Get(inadj, <<v, u>>) \cup {k}) ELSE inadj
      /\ act' = <<"ae", u, v, k>>
RE == \E e \in g.es :
      /\ g' = RemoveEdge(g, e)
      /\ adj' = LET a1 == Put(adj, <<e[1], e[2]>>, Get(adj, <<e[1], e[2]>>) \ {e[3]})
                IN IF Dir THEN a1 ELSE Put(a1, <<e[2], e[1]>>, Get(a1, <<e[2], e[1]>>) \ {e[3]})
      /\ inadj' = IF Dir THEN Put(inadj, <<e[2], e[1]>>, Get(inadj, <<e[2], e[1]>>) \ {e[3]}) ELSE inadj
      /\ act' = <<"re", e[1], e[2], e[3]>>
RV == \E u \in g.vs :
      /\ g' = RemoveVertex(g, u)
      /\ LET hit(p) == p[1] = u \/ p[2] = u
         IN adj' = Drop(adj, hit) /\ inadj' = Drop(inadj, hit)
      /\ act' = <<"rv", u>>
CL == /\ g.nxt > 0
      /\ g' = Clear(g) /\ adj' = <<>> /\ inadj' = <<>>
      /\ act' = <<"clear">>
Next == AV \/ AE \/ RE \/ RV \/ CL
Spec == Init /\ [][Next]_vars

\* ---- invariants
TypeOK == WellFormed(g)
IncidenceOK == Incidence(g)
HandshakeOK == Handshake(g)
ReprOK ==
  /\ \A u \in g.vs : OutEdges(g, u) = {<<u, p[2], k>> : p \in {q \in DOMAIN adj : q[1] = u}, k \in Keys}
                                       \cap {<<u, v, k>> : v \in g.vs, k \in Keys}
                                       \cap {x \in {<<u, v, k>> : v \in g.vs, k \in Keys} : x[3] \in Get(adj, <<x[1], x[2]>>)}
  /\ Dir => \A v \in g.vs : InEdges(g, v) =
       {x \in {<<u, v, k>> : u \in g.vs, k \in Keys} : x[3] \in Get(inadj, <<x[2], x[1]>>)}
  /\ \A p \in DOMAIN adj \cup DOMAIN inadj : p[1] \in g.vs /\ p[2] \in g.vs
\* a removed identifier comes back only through clear
NoReuse == [][act'[1] # "clear" => g'.nxt >= g.nxt /\ (g'.vs \ g.vs) \subseteq {g.nxt}]_vars
\* removals touch nothing else
Frame == [][/\ (act'[1] = "re" => Cardinality(g'.es) = Cardinality(g.es) - 1 /\ g'.es \subseteq g.es /\ g'.vs = g.vs)
            /\ (act'[1] = "rv" => \A e \in g.es : (e \in g'.es) = (e[1] # act'[2] /\ e[2] # act'[2]))]_vars

Key(x) == <<x.vs, x.nxt, x.es>>
Emit == PrintT(ToJson(<<"T", Key(g), act', Key(g')>>))
AbsView == Key(g)
=============================================================================
