------------------------------- MODULE Minimize -------------------------------
(***************************************************************************)
(* Classes of states of a deterministic automaton (module Lang): the       *)
(* coarsest partition whose blocks agree on a given property of the states *)
(* (final or not, and a label) and move to the same blocks, where a        *)
(* missing transition is a move to nowhere.                                *)
(***************************************************************************)
EXTENDS Lang
\* key: a function of the states
LeastAlike(m, key) == [q \in States(m) |-> CHOOSE r \in States(m) : key[r] = key[q] /\ \A p \in States(m) : key[p] = key[q] => r <= p]
ClassOf(m, key) == Refine(m, Syms(m), LeastAlike(m, key))
Blocks(m, key) == LET c == ClassOf(m, key) IN {{q \in States(m) : c[q] = c[r]} : r \in States(m)}
FinalKey(m) == [q \in States(m) |-> q \in m.fin]
MooreBlocks(m) == Blocks(m, FinalKey(m))
Before(m, S, a) == {q \in States(m) : Delta(m, q, a) \in S}
NoTwoEquivalent(m) == \A p, q \in States(m) : p < q => ~Equivalent(m, p, q)
IsPartition(P, Q) == {} \notin P /\ UNION P = Q /\ \A b, c \in P : b = c \/ b \cap c = {}
\* length of the longest path from a state of an acyclic automaton
RECURSIVE HeightOf(_, _)
HeightOf(m, q) == LET hs == {HeightOf(m, m.out[q][i][2]) : i \in 1..Len(m.out[q])}
                  IN IF hs = {} THEN 0 ELSE 1 + CHOOSE h \in hs : \A k \in hs : k <= h
=============================================================================
