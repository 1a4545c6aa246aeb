-------------------------------- MODULE Revuz --------------------------------
(***************************************************************************)
(* Minimization of an acyclic deterministic automaton in place, as a       *)
(* machine: g = [V, T, fin, ini, lab], T transitions <<q, a, r>>, lab a    *)
(* label for each state.  Two states with the same signature may be        *)
(* merged: the transitions to one of them (never the initial state) are    *)
(* moved to the other, then it is removed.                                 *)
(***************************************************************************)
EXTENDS Minimize
Sig(g, q) == <<q \in g.fin, g.lab[q], {<<t[2], t[3]>> : t \in {x \in g.T : x[1] = q}}>>
CanMerge(g, q1, q2) == /\ q1 \in g.V /\ q2 \in g.V /\ q1 # q2 /\ q2 # g.ini
                       /\ Sig(g, q1) = Sig(g, q2)
Into(g, q2) == {t \in g.T : t[3] = q2}
Merged(g, q1, q2) == [g EXCEPT !.V = @ \ {q2},
                       !.T = {<<t[1], t[2], IF t[3] = q2 THEN q1 ELSE t[3]>> : t \in {x \in @ : x[1] # q2}},
                       !.fin = @ \ {q2}]
NothingToMerge(g) == \A p, q \in g.V : p # q => Sig(g, p) # Sig(g, q)
OfAutomaton(m, lab) == [V |-> States(m), T |-> Trans(m), fin |-> m.fin, ini |-> m.ini, lab |-> lab]
LabKey(m, lab) == [q \in States(m) |-> <<q \in m.fin, lab[q]>>]
\* acceptance in g, for comparison with the automaton that it comes from
GDelta(g, q, a) == IF \E t \in g.T : t[1] = q /\ t[2] = a THEN (CHOOSE t \in g.T : t[1] = q /\ t[2] = a)[3] ELSE Bottom
SameWords(m, g) == LET Nx(x, a) == <<Delta(m, x[1], a), GDelta(g, x[2], a)>>
                   IN \A x \in JointFrom(<<m.ini, g.ini>>, Syms(m) \cup {t[2] : t \in g.T}, Nx) : F(m, x[1]) <=> (x[2] # Bottom /\ x[2] \in g.fin)
=============================================================================
