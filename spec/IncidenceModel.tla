--------------------------- MODULE IncidenceModel ---------------------------
EXTENDS Incidence, TLC, Json
CONSTANTS Kind, MaxId, MaxEdges, Syms, N0
VARIABLES s, act
Init == s = StartState(Kind, N0) /\ act = <<"init">>
LabelOf(r, k) == IF Kind = "node" THEN s.sym[r] ELSE k
Next ==
  \/ /\ s.g.nxt < MaxId /\ ~s.rev
     /\ \E a \in (IF Kind = "node" THEN Syms ELSE {0}) : s' = AddV(s, a) /\ act' = <<"av", a>>
  \/ /\ ~s.rev /\ Cardinality(s.g.es) < MaxEdges
     /\ \E q \in s.g.vs, r \in s.g.vs, k \in (IF Kind = "node" THEN {0} ELSE Syms) :
          LET a == LabelOf(r, k) IN
          IF Kind = "plain" /\ <<q, r, k>> \in s.g.es THEN FALSE
          ELSE /\ s' = (IF Admissible(s, q, a) THEN AddE(s, <<q, r, a>>) ELSE s)
               /\ act' = <<"ae", q, r, a>>
  \/ /\ ~s.rev /\ \E e \in s.g.es : s' = DelE(s, e) /\ act' = <<"re", e[1], e[2], e[3]>>
  \/ /\ ~s.rev /\ \E u \in s.g.vs : s' = DelV(s, u) /\ act' = <<"rv", u>>
  \/ /\ ~s.rev /\ s.g.nxt > 0 /\ s' = ClearAll(s) /\ act' = <<"clear">>
  \/ /\ s' = Reverse(s) /\ act' = <<"reverse">>
Spec == Init /\ [][Next]_<<s, act>>
TypeOK == WellFormed(s.g)
MirrorOK == Mirror(s)
DetOK == Kind # "plain" => \A e \in s.g.es, f \in s.g.es : <<e[1], e[3]>> = <<f[1], f[3]>> => e = f
NodeOK == Kind = "node" => \A e \in s.g.es : e[3] = s.sym[e[2]]
ReverseInvolution == Reverse(Reverse(s)) = s
Key(x) == <<x.g.vs, x.g.nxt, x.g.es, {<<v, x.sym[v]>> : v \in x.g.vs}, x.rev>>
Emit == PrintT(ToJson(<<"T", Key(s), act', Key(s')>>))
AbsView == Key(s)
=============================================================================
