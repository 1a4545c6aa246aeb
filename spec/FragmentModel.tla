---------------------------- MODULE FragmentModel ----------------------------
(***************************************************************************)
(* The combinations of Fragment, starting from every fragment of N states, *)
(* against words: W holds the words of at most B symbols that set algebra  *)
(* gives for what was combined so far.  New fragments are made from the    *)
(* denoted automata by adding an initial and a final state.                *)
(***************************************************************************)
EXTENDS Fragment
CONSTANTS N, L, B, Steps, MaxRep
VARIABLES g, W, k
vars == <<g, W, k>>
Words == WordsUpTo(L, B)
Lang(m) == {w \in Words : NAccepts(m, w)}
Cats(X, Y) == {u \in {x \o y : x \in X, y \in Y} : Len(u) <= B}
RECURSIVE Times(_, _)
Times(X, m) == IF m = 0 THEN {<<>>} ELSE Cats(Times(X, m - 1), X)
\* B + 1 repetitions or more bring nothing new (shorter words come from fewer ones, or from the empty word)
Reps(X, m, n) == UNION {Times(X, j) : j \in m..(IF n = -1 THEN m + B + 1 ELSE n)}
\* a fragment that denotes what the automaton m does
AsFrag(m) == LET n == Len(m.out)
                 start == LET RECURSIVE S(_)
                              S(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<<<0, x>>>> \o S(X \ {x})
                          IN S(m.ini)
             IN Frag([q \in 1..n + 2 |-> IF q = n + 1 THEN start ELSE IF q = n + 2 THEN <<>>
                                         ELSE IF q \in m.fin THEN Append(m.out[q], <<0, n + 2>>) ELSE m.out[q]], n + 1, n + 2)
Row(X) == LET RECURSIVE S(_)
              S(Y) == IF Y = {} THEN <<>> ELSE LET x == CHOOSE y \in Y : TRUE IN <<x>> \o S(Y \ {x})
          IN S(X)
Atoms == {AsFrag(OneOf(C)) : C \in SUBSET L}
Init == /\ \E T \in [1..N -> SUBSET (({0} \cup L) \X (1..N))], i \in 1..N, f \in 1..N : g = Frag([q \in 1..N |-> Row(T[q])], i, f)
        /\ W = Lang(Nfa(g)) /\ k = 0
Next == /\ k < Steps /\ k' = k + 1
        /\ \/ \E C \in SUBSET L : \/ g' = AsFrag(CatL(g, AsFrag(OneOf(C)))) /\ W' = Cats(W, {<<c>> : c \in C})
                                  \/ g' = AsFrag(CatL(AsFrag(OneOf(C)), g)) /\ W' = Cats({<<c>> : c \in C}, W)
                                  \/ g' = AsFrag(AltL(g, AsFrag(OneOf(C)))) /\ W' = (W \cup {<<c>> : c \in C}) \cap Words
           \/ g' = AsFrag(CatL(g, g)) /\ W' = Cats(W, W)
           \/ \E m \in 0..MaxRep, n \in -1..MaxRep : (n = -1 \/ m <= n) /\ g' = AsFrag(RepL(g, m, n)) /\ W' = Reps(W, m, n)
Spec == Init /\ [][Next]_vars
Denotes == WFFrag(g) /\ Lang(Nfa(g)) = W
=============================================================================
