----------------------------- MODULE PruneModel -----------------------------
(* Pruning as a machine: search forwards from the initial state, backwards from the final states,
   one state at a time in any order, then remove what is missing from one of the two searches. *)
EXTENDS Lang, SequencesExt, TLC
CONSTANTS N, L
VARIABLES m, fw, bw, doneF, doneB, kept
vars == <<m, fw, bw, doneF, doneB, kept>>
Row(f, q) == LET s == SetToSeq({a \in L : f[q, a] # Bottom}) IN [i \in 1..Len(s) |-> <<s[i], f[q, s[i]]>>]
Init == \E f \in [(1..N) \X L -> 0..N], fin \in SUBSET (1..N) :
          /\ m = [out |-> [q \in 1..N |-> Row(f, q)], ini |-> 1, fin |-> fin]
          /\ fw = {1} /\ bw = fin /\ doneF = {} /\ doneB = {} /\ kept = States(m)
Forward == \E q \in fw \ doneF : /\ fw' = fw \cup {t[3] : t \in {x \in Trans(m) : x[1] = q}} /\ doneF' = doneF \cup {q}
                                 /\ UNCHANGED <<m, bw, doneB, kept>>
Backward == \E q \in bw \ doneB : /\ doneF = fw /\ bw' = bw \cup {t[1] : t \in {x \in Trans(m) : x[3] = q}} /\ doneB' = doneB \cup {q}
                                  /\ UNCHANGED <<m, fw, doneF, kept>>
Drop == /\ doneF = fw /\ doneB = bw
          /\ \E q \in kept \ (fw \cap bw) : kept' = kept \ {q}
          /\ UNCHANGED <<m, fw, bw, doneF, doneB>>
Next == Forward \/ Backward \/ Drop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == ~ENABLED Next
Ends == <>Done
Useful == Reachable(m) \cap Coreachable(m)
Small == [out |-> [q \in States(m) |-> IF q \in kept THEN SelectSeq(m.out[q], LAMBDA x : x[2] \in kept) ELSE <<>>], ini |-> m.ini, fin |-> m.fin \cap kept]
NeverTooMuch == Useful \subseteq kept
WordsOK == SameLang(m, Small)
DoneOK == Done => kept = Useful
=============================================================================
