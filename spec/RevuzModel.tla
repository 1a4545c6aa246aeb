----------------------------- MODULE RevuzModel -----------------------------
(* Merging states of the same signature in any order, on every small acyclic automaton:
   the words never change, only states of the same height are ever alike, and when nothing is left to
   merge the states are the classes. *)
EXTENDS Revuz, SequencesExt, TLC
CONSTANTS N, L, NLab, MayDropInitial
VARIABLES m, lab, g
vars == <<m, lab, g>>
Init == \E f \in {h \in [(1..N) \X L -> 0..N] : \A x \in DOMAIN h : h[x] = 0 \/ h[x] > x[1]}, fin \in SUBSET (1..N), i \in {1, N}, lb \in [1..N -> 1..NLab] :
          /\ m = [out |-> [q \in 1..N |-> LET s == SetToSeq({a \in L : f[q, a] # Bottom}) IN [k \in 1..Len(s) |-> <<s[k], f[q, s[k]]>>]], ini |-> i, fin |-> fin]
          /\ lab = lb
          /\ g = OfAutomaton(m, lb)
Next == /\ \E p, q \in g.V : /\ (CanMerge(g, p, q) \/ (MayDropInitial /\ p # q /\ Sig(g, p) = Sig(g, q)))
                             /\ g' = Merged(g, p, q)
        /\ UNCHANGED <<m, lab>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>NothingToMerge(g)
WordsOK == g.ini \in g.V /\ SameWords(m, g)
HeightsOK == \A p, q \in g.V : p # q /\ Sig(g, p) = Sig(g, q) => HeightOf(m, p) = HeightOf(m, q)
MinimalOK == NothingToMerge(g) => Cardinality(g.V) = Cardinality(Blocks(m, LabKey(m, lab)))
=============================================================================
