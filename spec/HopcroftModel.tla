---------------------------- MODULE HopcroftModel ----------------------------
(* Hopcroft's refinement with any choice of splitter and letter, on every small automaton
   (complete or not): every partition on the way is coarser than the classes, the last one is the classes. *)
EXTENDS Minimize, SequencesExt, TLC
CONSTANTS N, L, OnlyComplete, NeverBoth  \* NeverBoth: put only one of the two first blocks in the queue
VARIABLES m, blocks, waiting, splitter, letters
vars == <<m, blocks, waiting, splitter, letters>>
Row(f, q) == LET S == {a \in L : f[q, a] # Bottom}  s == SetToSeq(S) IN [i \in 1..Len(s) |-> <<s[i], f[q, s[i]]>>]
Init == \E f \in [(1..N) \X L -> IF OnlyComplete THEN 1..N ELSE 0..N], fin \in SUBSET (1..N) :
          /\ m = [out |-> [q \in 1..N |-> Row(f, q)], ini |-> 1, fin |-> fin]
          /\ blocks = {fin, (1..N) \ fin} \ {{}}
          /\ waiting = IF NeverBoth THEN {CHOOSE b \in blocks : TRUE} ELSE blocks
          /\ splitter = {} /\ letters = {}
Pick == /\ letters = {}
        /\ \E S \in waiting : splitter' = S /\ waiting' = waiting \ {S}
        /\ letters' = Syms(m) /\ UNCHANGED <<m, blocks>>
Cuts(x) == {y \in blocks : y \cap x # {} /\ y \ x # {}}
Halves(x) == {y \cap x : y \in Cuts(x)} \cup {y \ x : y \in Cuts(x)}
Split == \E a \in letters :
           LET x == Before(m, splitter, a) IN
           /\ letters' = letters \ {a}
           /\ blocks' = (blocks \ Cuts(x)) \cup Halves(x)
           /\ waiting' = (waiting \ Cuts(x)) \cup UNION {
                 IF y \in waiting THEN {y \cap x, y \ x}
                 ELSE IF Cardinality(y \cap x) <= Cardinality(y \ x) THEN {y \cap x} ELSE {y \ x} : y \in Cuts(x)}
           /\ UNCHANGED <<m, splitter>>
Next == Pick \/ Split
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == letters = {} /\ waiting = {}
Ends == <>Done
Coarser == /\ IsPartition(blocks, States(m))
           /\ \A b \in MooreBlocks(m) : \E c \in blocks : b \subseteq c
DoneOK == Done => blocks = MooreBlocks(m)
\* the quotient
Quo == LET s == SetToSeq(blocks)  at == [q \in States(m) |-> CHOOSE i \in 1..Len(s) : q \in s[i]] IN
       [out |-> [i \in 1..Len(s) |-> LET q == CHOOSE x \in s[i] : TRUE IN [k \in 1..Len(m.out[q]) |-> <<m.out[q][k][1], at[m.out[q][k][2]]>>]],
        ini |-> at[m.ini], fin |-> {i \in 1..Len(s) : s[i] \cap m.fin # {}}]
QuotientOK == Done => /\ SameLang(m, Quo)
                      /\ IsComplete(m, L) => NoTwoEquivalent(Quo)
=============================================================================
