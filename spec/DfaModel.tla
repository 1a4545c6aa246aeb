------------------------------ MODULE DfaModel ------------------------------
EXTENDS Dfa, TLC, Json
CONSTANTS Kind, MaxId, L, N0, Flags, MaxW
VARIABLES m, act
Init == m = New(Kind, N0, 0, {}) /\ act = <<"init">>
Next ==
  \/ /\ m.nxt < MaxId
     /\ \E a \in (IF Kind = "node" THEN L ELSE {0}) : m' = AddState(m, a) /\ act' = <<"av", a>>
  \/ \E q \in m.vs, r \in m.vs, k \in (IF Kind = "node" THEN {0} ELSE L) :
        LET a == LabelOf(m, r, k) IN
        /\ m' = AddTr(m, q, r, a)
        /\ act' = <<"ae", q, r, a>>
  \/ \E t \in m.tr : m' = DelTr(m, t[1], t[2]) /\ act' = <<"re", t[1], t[2], t[3]>>
  \/ \E u \in m.vs : u # m.q0 /\ m' = DelState(m, u) /\ act' = <<"rv", u>>
  \/ Flags /\ \E q \in m.vs, b \in BOOLEAN : m' = SetInitial(m, q, b) /\ act' = <<"si", q, b>>
  \/ Flags /\ \E q \in m.vs, b \in BOOLEAN : m' = SetFinal(m, q, b) /\ act' = <<"sf", q, b>>
  \/ /\ Flags /\ Kind = "edge" /\ m.q0 \in m.vs
     /\ \E w \in Words(L, 2) : LET x == InsertString(m, w) IN
           /\ x.nxt <= MaxId
           /\ m' = x /\ act' = <<"ins", w>>
Spec == Init /\ [][Next]_<<m, act>>
TypeOK == WellFormed(m)
DetOK == Deterministic(m)
NodeOK == NodeLabels(m)
RunOK == \A w \in Words(L, MaxW) : m.q0 \in m.vs \cup {None} => (Accepts(m, w) <=> AcceptsByPath(m, w))
\* a refused transition changes nothing; an insertion adds its word and only words extending what could be read
RefuseOK == [][(act'[1] = "ae" /\ ~CanAdd(m, act'[2], act'[4])) => m' = m]_<<m, act>>
InsertOK == [][act'[1] = "ins" => /\ Accepts(m', act'[2])
                                  /\ \A w \in Words(L, MaxW) : Accepts(m, w) => Accepts(m', w)]_<<m, act>>
Key(x) == <<x.vs, x.nxt, x.tr, x.q0, x.fin, {<<v, x.sym[v]>> : v \in x.vs}>>
Emit == PrintT(ToJson(<<"T", Key(m), act', Key(m')>>))
AbsView == Key(m)
=============================================================================
