-------------------------------- MODULE Trie --------------------------------
(***************************************************************************)
(* A trie: the set of prefixes that have a node, and the set of words that *)
(* it accepts.                                                             *)
(***************************************************************************)
EXTENDS Lang
Prefixes(w) == {SubSeq(w, 1, k) : k \in 0..Len(w)}
EmptyTrie == [nodes |-> {<<>>}, words |-> {}]
WithWord(t, w) == [nodes |-> t.nodes \cup Prefixes(w), words |-> t.words \cup {w}]
WithTrie(t, u) == [nodes |-> t.nodes \cup u.nodes, words |-> t.words \cup u.words]
WellFormed(t) == <<>> \in t.nodes /\ t.words \subseteq t.nodes /\ \A w \in t.nodes : Prefixes(w) \subseteq t.nodes
OfWord(w) == [nodes |-> Prefixes(w), words |-> {w}]
(* the words that lead to the states of an automaton (module Lang), as a
   set of pairs <<word, state>>; exact for a tree *)
Access(m) ==
  LET RECURSIVE J(_, _)
      J(S, front) == IF front = {} THEN S
                     ELSE LET n == UNION {{<<Append(x[1], m.out[x[2]][i][1]), m.out[x[2]][i][2]>> : i \in 1..Len(m.out[x[2]])} : x \in front}
                          IN IF \E x \in n : Len(x[1]) > Len(m.out) THEN S \cup n ELSE J(S \cup n, n \ S)
  IN IF m.ini = Bottom THEN {} ELSE J({<<<<>>, m.ini>>}, {<<<<>>, m.ini>>})
\* m is the tree t: one state for each prefix and nothing else
IsTree(m, t) ==
  LET A == Access(m) IN
  /\ {x[1] : x \in A} = t.nodes
  /\ {x[1] : x \in {y \in A : y[2] \in m.fin}} = t.words
  /\ Len(m.out) = Cardinality(t.nodes)
  /\ {x[2] : x \in A} = States(m)
\* the factors of a word
Factors(w, bound) == {<<>>} \cup {SubSeq(w, x[1], x[2]) : x \in {y \in (1..Len(w)) \X (1..Len(w)) : y[1] <= y[2] /\ y[2] < y[1] + bound}}
Occurrences(w, v) == {i \in 1..Len(w) - Len(v) + 1 : SubSeq(w, i, i + Len(v) - 1) = v}
\* numbers of pairs reached by a common word that are final in neither, only the first, only the second, both
Counters(m1, m2) ==
  LET P == Pairs(m1, m2) \ {<<Bottom, Bottom>>}
      C(f1, f2) == Cardinality({x \in P : (F(m1, x[1]) <=> f1) /\ (F(m2, x[2]) <=> f2)})
  IN <<C(FALSE, FALSE), C(TRUE, FALSE), C(FALSE, TRUE), C(TRUE, TRUE)>>
=============================================================================
