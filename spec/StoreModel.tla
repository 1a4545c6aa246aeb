----------------------------- MODULE StoreModel -----------------------------
(***************************************************************************)
(* Every chain of operations on two slots that start with any small        *)
(* automata: W is what set algebra on words of at most B symbols says of   *)
(* the slots; the automata that the operations build agree with it, and    *)
(* the exact comparisons of Store agree with the words.                    *)
(***************************************************************************)
EXTENDS Store
CONSTANTS N, L, B, Steps, MaxStates
VARIABLES sl, W, k
vars == <<sl, W, k>>
Words == WordsUpTo(L, B)
WordsOf(m) == {w \in Words : Accepts(m, w)}
Row(f) == LET A == {a \in L : f[a] # 0}  t == Numbered(A) IN [i \in 1..Len(t) |-> <<t[i], f[t[i]]>>]
Autos == {[nd |-> 0, out |-> [q \in 1..N |-> Row(T[q])], ini |-> 1, fin |-> X] : T \in [1..N -> [L -> 0..N]], X \in SUBSET (1..N)}
Init == /\ sl \in [1..2 -> Autos] /\ W = [i \in 1..2 |-> WordsOf(sl[i])] /\ k = 0
Put(i, m, X) == Len(m.out) <= MaxStates /\ sl' = [sl EXCEPT ![i] = m] /\ W' = [W EXCEPT ![i] = X]
Next == /\ k < Steps /\ k' = k + 1
        /\ \E i, j \in 1..2 :
             \/ Put(i, ProductOf(sl[1], sl[2], Or), W[1] \cup W[2])
             \/ Put(i, ProductOf(sl[1], sl[2], And), W[1] \cap W[2])
             \/ Put(i, Quotient(sl[j]), W[j])
             \/ Put(i, Trim(sl[j]), W[j])
Spec == Init /\ [][Next]_vars
Set(m) == [m EXCEPT !.ini = IF @ = Bottom THEN {} ELSE {@}]
StoreOK == \A i \in 1..2 : SlotOK(Set(sl[i])) /\ WordsOf(sl[i]) = W[i]
CompareOK == /\ Relation(sl[1], sl[2]) = "eq" => W[1] = W[2]
             /\ Relation(sl[1], sl[2]) \in {"eq", "lt"} => W[1] \subseteq W[2]
             /\ SameWords(Set(sl[1]), Set(sl[2])) <=> Relation(sl[1], sl[2]) = "eq"
             \* two automata of n and m states that differ do so on a word of at most n + m symbols
             /\ Len(sl[1].out) + Len(sl[2].out) <= B => (SameWords(Set(sl[1]), Set(sl[2])) <=> W[1] = W[2])
\* combinations of languages, by words
NWords(m) == {w \in Words : NAccepts(m, w)}
CatW(X, Y) == {w \in {x \o y : x \in X, y \in Y} : Len(w) <= B}
RECURSIVE StarW(_, _)
StarW(X, A) == LET n == A \cup CatW(A, X) IN IF n = A THEN A ELSE StarW(X, n)
FactorsW(w) == {SubSeq(w, i, j) : i \in 1..Len(w) + 1, j \in 0..Len(w)}
BuildOK == /\ NWords(Followed(Set(sl[1]), Set(sl[2]))) = CatW(W[1], W[2])
           /\ NWords(Starred(Set(sl[1]))) = StarW(W[1], {<<>>})
           /\ k = 0 => \A w \in W[1] : NWords(Factors(w)) = FactorsW(w)
=============================================================================
