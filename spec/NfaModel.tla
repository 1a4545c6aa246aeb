------------------------------ MODULE NfaModel ------------------------------
EXTENDS Nfa, TLC, Json
CONSTANTS MaxId, L, N0, MaxTr, Flags, MaxW, Bound
VARIABLES m, act
Init == m = NewNfa(N0, IF N0 > 0 THEN {0} ELSE {}, {}) /\ act = <<"init">>
Next ==
  \/ m.nxt < MaxId /\ m' = AddState(m) /\ act' = <<"av">>
  \/ \E q \in m.vs, r \in m.vs, a \in L : /\ Cardinality(m.tr) < MaxTr \/ <<q, a, r>> \in m.tr
                                          /\ m' = AddTr(m, q, a, r) /\ act' = <<"ae", q, a, r>>
  \/ \E t \in m.tr : m' = DelTr(m, t[1], t[2], t[3]) /\ act' = <<"re", t[1], t[2], t[3]>>
  \/ \E u \in m.vs \ m.ini : m' = DelState(m, u) /\ act' = <<"rv", u>>
  \/ Flags /\ \E q \in m.vs, b \in BOOLEAN : m' = SetInitial(m, q, b) /\ act' = <<"si", q, b>>
  \/ Flags /\ \E q \in m.vs, b \in BOOLEAN : m' = SetFinal(m, q, b) /\ act' = <<"sf", q, b>>
  \/ Flags /\ \E qs \in SUBSET m.vs : m' = SetInitials(m, qs) /\ act' = <<"sis", qs>>
Spec == Init /\ [][Next]_<<m, act>>
TypeOK == WellFormed(m)
\* the closure is reflexive, transitive, and the least such set
ClosureOK == \A qs \in SUBSET m.vs :
  LET c == Closure(m, qs) IN
  /\ qs \subseteq c /\ Closure(m, c) = c
  /\ \A d \in SUBSET m.vs : (qs \subseteq d /\ OneStep(m, d, Eps) \subseteq d) => c \subseteq d
RunOK == \A w \in Words(L \ {Eps}, MaxW) : Accepts(m, w) <=> AcceptsByRun(m, w, Bound)
DeltaOK == \A w \in Words(L \ {Eps}, MaxW), a \in L \ {Eps} :
  DeltaWord(m, Append(w, a)) = UNION {Delta(m, q, a) : q \in DeltaWord(m, w)}
SigmaOK == \A q \in m.vs : Sigma(m, q) = {a \in Alphabet(m) : Delta(m, q, a) # {}}
Key(x) == <<x.vs, x.nxt, x.tr, x.ini, x.fin>>
Emit == PrintT(ToJson(<<"T", Key(m), act', Key(m')>>))
AbsView == Key(m)
=============================================================================
