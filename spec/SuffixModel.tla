----------------------------- MODULE SuffixModel -----------------------------
(***************************************************************************)
(* The suffix trie of every short word, built letter after letter from     *)
(* every start, then the joint traversal of it with the suffix trie of     *)
(* another word, one pair of nodes at a time.                              *)
(***************************************************************************)
EXTENDS Trie, TLC
CONSTANTS L, MaxLen
VARIABLES w, bound, i, j, q, t, other, queue, seen, count
vars == <<w, bound, i, j, q, t, other, queue, seen, count>>
D(f, x, a) == IF x # Bottom /\ <<x, a>> \in DOMAIN f.d THEN f.d[<<x, a>>] ELSE Bottom
Init == /\ w \in WordsUpTo(L, MaxLen) /\ bound \in 0..MaxLen /\ other \in WordsUpTo(L, 2)
        /\ i = 1 /\ j = 1 /\ q = 1 /\ t = [n |-> 1, d |-> <<>>]
        /\ queue = <<>> /\ seen = {} /\ count = <<0, 0, 0, 0>>
Built == i > Len(w)
Letter == /\ ~Built /\ j <= Len(w) /\ j < i + bound
          /\ LET r == D(t, q, w[j]) IN
             IF r # Bottom THEN q' = r /\ t' = t
             ELSE q' = t.n + 1 /\ t' = [n |-> t.n + 1, d |-> t.d @@ (<<q, w[j]>> :> (t.n + 1))]
          /\ j' = j + 1 /\ UNCHANGED <<w, bound, i, other, queue, seen, count>>
Shift == /\ ~Built /\ ~(j <= Len(w) /\ j < i + bound)
         /\ i' = i + 1 /\ j' = i + 1 /\ q' = 1 /\ UNCHANGED <<w, bound, t, other, queue, seen, count>>
Auto == [out |-> [x \in 1..t.n |-> LET A == {a \in L : D(t, x, a) # Bottom} IN
                    [k \in 1..Cardinality(A) |-> LET a == CHOOSE b \in A : Cardinality({c \in A : c < b}) = k - 1 IN <<a, D(t, x, a)>>]],
         ini |-> 1, fin |-> 1..t.n]
\* the second trie, as the set of its nodes; a node is a word
Nodes2 == Factors(other, Len(other))
Is2(v) == v \in Nodes2
None == <<0>>    \* no node: not a word over L
Tell(c, x) == [c EXCEPT ![1 + (IF x[1] # Bottom THEN 1 ELSE 0) + (IF x[2] # None THEN 2 ELSE 0)] = @ + 1]
Begin == Built /\ seen = {} /\ queue' = <<<<1, <<>>>>>> /\ seen' = {<<1, <<>>>>} /\ count' = Tell(count, <<1, <<>>>>) /\ UNCHANGED <<w, bound, i, j, q, t, other>>
To(x, a) == <<D(t, x[1], a), IF x[2] # None /\ Is2(Append(x[2], a)) THEN Append(x[2], a) ELSE None>>
RECURSIVE Visit(_, _, _)
Visit(s, x, A) == IF A = {} THEN s ELSE
  LET a == CHOOSE b \in A : TRUE  y == To(x, a) IN
  Visit(IF y = <<Bottom, None>> \/ y \in s.seen THEN s ELSE [queue |-> Append(s.queue, y), seen |-> s.seen \cup {y}, count |-> Tell(s.count, y)], x, A \ {a})
Step == /\ queue # <<>>
        /\ LET s == Visit([queue |-> Tail(queue), seen |-> seen, count |-> count], Head(queue), L)
           IN queue' = s.queue /\ seen' = s.seen /\ count' = s.count
        /\ UNCHANGED <<w, bound, i, j, q, t, other>>
Next == Letter \/ Shift \/ Begin \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == Built /\ queue = <<>> /\ seen # {}
Ends == <>Done
TrieOK == Built => LET f == Factors(w, bound) IN IsTree(Auto, [nodes |-> f, words |-> f])
CountOK == Done => LET f == Factors(w, bound) IN
             /\ count = <<0, Cardinality(f \ Nodes2), Cardinality(Nodes2 \ f), Cardinality(f \cap Nodes2)>>
=============================================================================
