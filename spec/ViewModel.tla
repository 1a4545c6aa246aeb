------------------------------ MODULE ViewModel -----------------------------
(* Every small graph with every declaration of two base views, and the combinations of the two. *)
EXTENDS View, TLC, Json
CONSTANTS Dir, MaxId, MaxEdges, Keys, Combos
VARIABLES s, act
W0 == <<Base({}, {}), Base({}, {}), Combo("or", 1, 2), Combo("and", 1, 2), Combo("sub", 1, 2)>>
W == IF Combos THEN W0 \o <<Combo("sub", 3, 4), Combo("or", 5, 2), Combo("and", 3, 1)>> ELSE W0
Init == s = [g |-> EmptyGraph(Dir, 0), ws |-> W] /\ act = <<"init">>
Forget(x, us, es) == [x EXCEPT !.ws[1].v = @ \ us, !.ws[2].v = @ \ us, !.ws[1].e = @ \ es, !.ws[2].e = @ \ es]
Next ==
  \/ /\ s.g.nxt < MaxId /\ s' = OnGraph(s, AddVertex(s.g)) /\ act' = <<"av">>
  \/ \E u \in s.g.vs, v \in s.g.vs, k \in Keys :
       /\ Cardinality(s.g.es) < MaxEdges /\ (Dir \/ u <= v) /\ <<u, v, k>> \notin s.g.es
       /\ s' = OnGraph(s, AddEdge(s.g, <<u, v, k>>)) /\ act' = <<"ae", u, v, k>>
  \/ \E e \in s.g.es : s' = Forget(OnGraph(s, RemoveEdge(s.g, e)), {}, {e}) /\ act' = <<"re", e[1], e[2], e[3]>>
  \/ \E u \in s.g.vs : /\ s' = Forget(OnGraph(s, RemoveVertex(s.g, u)), {u}, {e \in s.g.es : e[1] = u \/ e[2] = u})
                       /\ act' = <<"rv", u>>
  \/ \E i \in {1, 2}, u \in s.g.vs, b \in BOOLEAN : s' = DeclV(s, i, u, b) /\ s' # s /\ act' = <<"dv", i, u, b>>
  \/ \E i \in {1, 2}, e \in s.g.es, b \in BOOLEAN : s' = DeclE(s, i, e, b) /\ s' # s /\ act' = <<"de", i, e[1], e[2], e[3], b>>
Spec == Init /\ [][Next]_<<s, act>>
ViewOK == ViewWF(s)
CombosOK == ComboOK(s)
Key(x) == <<x.g.vs, x.g.nxt, x.g.es, x.ws[1].v, x.ws[1].e, x.ws[2].v, x.ws[2].e>>
Emit == PrintT(ToJson(<<"T", Key(s), act', Key(s')>>))
AbsView == Key(s)
=============================================================================
