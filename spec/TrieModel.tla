----------------------------- MODULE TrieModel -----------------------------
(***************************************************************************)
(* Two tries made of states and transitions; words are inserted by walking *)
(* as far as possible, and a trie is merged into another one by a joint    *)
(* breadth-first search of both that goes on where the second one goes on. *)
(* They always are the trees of the words inserted so far.                 *)
(***************************************************************************)
EXTENDS Trie, TLC
CONSTANTS L, MaxLen, Ops, SelfMerge
VARIABLES impl, abs, queue, at, into, from, ops
vars == <<impl, abs, queue, at, into, from, ops>>
\* impl[i] = [n, d: <<state, symbol>> -> state, fin]
I0 == [n |-> 1, d |-> <<>>, fin |-> {}]
D(t, q, a) == IF q # Bottom /\ <<q, a>> \in DOMAIN t.d THEN t.d[<<q, a>>] ELSE Bottom
Grow(t, q, a) == [t EXCEPT !.n = @ + 1, !.d = @ @@ (<<q, a>> :> (t.n + 1))]
RECURSIVE Walk(_, _, _)
Walk(t, q, w) == IF w = <<>> THEN [t EXCEPT !.fin = @ \cup {q}]
                 ELSE IF D(t, q, Head(w)) # Bottom THEN Walk(t, D(t, q, Head(w)), Tail(w))
                 ELSE LET g == Grow(t, q, Head(w)) IN Walk(g, g.n, Tail(w))
Init == /\ impl = [i \in 1..2 |-> I0] /\ abs = [i \in 1..2 |-> EmptyTrie]
        /\ queue = <<>> /\ at = <<>> /\ into = 0 /\ from = 0 /\ ops = 0
Insert == /\ queue = <<>> /\ into = 0 /\ ops < Ops
          /\ \E i \in 1..2, w \in WordsUpTo(L, MaxLen) :
               /\ impl' = [impl EXCEPT ![i] = Walk(@, 1, w)]
               /\ abs' = [abs EXCEPT ![i] = WithWord(@, w)]
          /\ ops' = ops + 1 /\ UNCHANGED <<queue, at, into, from>>
Begin == /\ into = 0 /\ ops < Ops
         /\ \E i, j \in 1..2 : /\ (SelfMerge \/ i # j) /\ into' = i /\ from' = j
                               /\ impl' = [impl EXCEPT ![i].fin = IF 1 \in impl[j].fin THEN @ \cup {1} ELSE @]
                               /\ abs' = [abs EXCEPT ![i] = WithTrie(@, abs[j])]
         /\ queue' = <<<<1, 1>>>> /\ at' = (1 :> 1) /\ ops' = ops + 1
\* examine one pair of states: all its transitions in the second trie
RECURSIVE Examine(_, _, _)
Examine(s, x, A) ==   \* s = [t, at, out]
  IF A = {} THEN s
  ELSE LET a == CHOOSE b \in A : TRUE
           u == impl[from]  r2 == D(u, x[2], a)  r1 == D(s.t, x[1], a)
           q1 == IF x[1] = Bottom THEN s.at[x[2]] ELSE x[1]
           t1 == IF r1 = Bottom THEN Grow(s.t, q1, a) ELSE s.t
           n1 == IF r1 = Bottom THEN t1.n ELSE r1
           t2 == IF r2 \in u.fin THEN [t1 EXCEPT !.fin = @ \cup {n1}] ELSE t1
       IN Examine([t |-> t2, at |-> IF r1 = Bottom THEN s.at @@ (r2 :> n1) ELSE s.at, out |-> Append(s.out, <<r1, r2>>)], x, A \ {a})
Merge == /\ into # 0 /\ queue # <<>>
         /\ LET x == Head(queue)
                s == Examine([t |-> impl[into], at |-> at, out |-> <<>>], x, {a \in L : D(impl[from], x[2], a) # Bottom})
            IN /\ impl' = [impl EXCEPT ![into] = s.t] /\ at' = s.at /\ queue' = Tail(queue) \o s.out
         /\ UNCHANGED <<abs, into, from, ops>>
End == into # 0 /\ queue = <<>> /\ into' = 0 /\ from' = 0 /\ at' = <<>> /\ UNCHANGED <<impl, abs, queue, ops>>
Next == Insert \/ Begin \/ Merge \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Merge \/ End)
Auto(t) == [out |-> [q \in 1..t.n |-> LET A == {a \in L : D(t, q, a) # Bottom} IN
                       [i \in 1..Cardinality(A) |-> LET a == CHOOSE b \in A : Cardinality({c \in A : c < b}) = i - 1 IN <<a, D(t, q, a)>>]],
            ini |-> 1, fin |-> t.fin]
TreesOK == into = 0 => \A i \in 1..2 : WellFormed(abs[i]) /\ IsTree(Auto(impl[i]), abs[i])
FromUntouched == into # 0 /\ from # into => IsTree(Auto(impl[from]), abs[from])
Ends == []<>(into = 0)
=============================================================================
