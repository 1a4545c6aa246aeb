---------------------------- MODULE FragmentTrace ----------------------------
(* Combinations of fragments by the functions of thompson_compile_nfa.  State: the fragments at hand. *)
EXTENDS Fragment, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
Start(x) == x.fr
G(x) == Frag(x.out, x.i, x.f)
N(x) == [out |-> x.out, ini |-> S(x.ini), fin |-> S(x.fin)]
\* the fragments other than the one combined in place stay as they are
Others(s, e) == Fail("another-fragment-changed", Len(e.fr) = Len(s) /\ \A i \in 1..Len(s) : i # e.i => e.fr[i] = s[i])
IsFrag(x) == WFFrag(G(x)) /\ S(x.ini) = {x.i} /\ S(x.fin) = {x.f}
Denotes(e, want) == IF ~IsFrag(e.fr[e.i]) THEN {"not-a-fragment-with-one-initial-and-one-final-state"}
                    ELSE Fail("wrong-language", SameNfaNfa(want, Nfa(G(e.fr[e.i]))))
Bad(s, e) ==
  CASE e.op = "new" -> Others(s, e) \cup Fail("arbitrary-fragment", IsFrag(e.fr[e.i]))
    [] e.op = "chars" -> Others(s, e) \cup Denotes(e, OneOf(S(e.c)))
    [] e.op = "cat" -> Others(s, e) \cup Denotes(e, CatL(G(s[e.i]), G(s[e.j])))
    [] e.op = "alt" -> Others(s, e) \cup Denotes(e, AltL(G(s[e.i]), G(s[e.j])))
    [] e.op = "rep" -> Others(s, e) \cup Denotes(e, RepL(G(s[e.i]), e.m, e.n))
    [] e.op = "insert" -> LET m == N(e.fr[e.i])  g1 == N(s[e.i])  g2 == N(s[e.j])  P == S(e.pre) IN
         Others(s, e)
         \cup (IF Len(e.map) # Len(g2.out) \/ ~WF(m) \/ (S(e.at) \cup S(e.map)) \ States(m) # {} THEN {"states-not-mapped"}
               ELSE Fail("not-both-automata", Holds(m, g1, e.at, g2, e.map))
                    \cup Fail("states-given-beforehand", \A p \in P : e.map[p[1]] = e.at[p[2]])
                    \cup Fail("states-shared", LET FR == {q \in States(g2) : \A p \in P : p[1] # q} IN
                              /\ Cardinality({e.map[q] : q \in FR}) = Cardinality(FR)
                              /\ \A q \in FR : e.map[q] \notin S(e.at)
                              /\ \A q \in FR : e.map[q] \in m.fin <=> q \in g2.fin)
                    \cup Fail("first-automaton-changed", m.ini = {e.at[q] : q \in g1.ini} /\ \A q \in States(g1) : e.at[q] \in m.fin <=> q \in g1.fin))
    [] e.op = "accepts" -> Fail("accepts", (e.r = 1) <=> NAccepts(Nfa(G(s[e.i])), e.w))
    [] OTHER -> {"unknown-op"}
Step(s, e) == IF e.op = "accepts" THEN s ELSE e.fr
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
