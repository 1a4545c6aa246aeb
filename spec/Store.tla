-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* A store of automata on which language operations are performed one      *)
(* after the other, each on what earlier ones left.  A slot holds          *)
(*   [nd, out, ini, fin]: as in module Lang; ini is a set, and nd tells    *)
(* whether several runs are allowed.  Each operation has an effect on the  *)
(* language of one slot, and none on the other slots.                      *)
(***************************************************************************)
EXTENDS Lang, SequencesExt
Det(m) == [m EXCEPT !.ini = IF \E q \in m.ini : q \in States(m) THEN CHOOSE q \in m.ini : q \in States(m) ELSE Bottom]
SlotOK(m) == /\ WF(m)
             /\ m.nd = 0 => IsDet(m) /\ Cardinality(m.ini) <= 1 /\ 0 \notin Syms(m)
Live(m) == [m EXCEPT !.ini = @ \cap States(m)]
Joint3(a, b, c) ==
  LET Nx(x, s) == <<NDelta(a, x[1], s), NDelta(b, x[2], s), NDelta(c, x[3], s)>>
  IN JointFrom(<<NStart(a), NStart(b), NStart(c)>>, (Syms(a) \cup Syms(b) \cup Syms(c)) \ {0}, Nx)
Nothing == [nd |-> 0, out |-> <<>>, ini |-> {}, fin |-> {}]
OfWord(w) == [nd |-> 0, out |-> [q \in 1..Len(w) + 1 |-> IF q <= Len(w) THEN <<<<w[q], q + 1>>>> ELSE <<>>], ini |-> {1}, fin |-> {Len(w) + 1}]
\* the language of c combines those of a and b
Combines(a, b, c, Op(_, _)) == \A x \in Joint3(Live(a), Live(b), Live(c)) : NF(c, x[3]) <=> Op(NF(a, x[1]), NF(b, x[2]))
SameWords(a, b) == Combines(a, Nothing, b, LAMBDA f, g : f)
\* words of a followed by words of b; any number of words of a; the factors of a word
Moved(out, k) == [q \in 1..Len(out) |-> [i \in 1..Len(out[q]) |-> <<out[q][i][1], out[q][i][2] + k>>]]
To(Q, k) == LET t == SetToSeq(Q) IN [i \in 1..Len(t) |-> <<0, t[i] + k>>]
Followed(a, b) ==
  LET n == Len(a.out) IN
  [nd |-> 1, out |-> [q \in 1..n |-> IF q \in a.fin THEN a.out[q] \o To(b.ini, n) ELSE a.out[q]] \o Moved(b.out, n),
   ini |-> a.ini, fin |-> {q + n : q \in b.fin}]
Starred(a) ==
  LET n == Len(a.out) IN
  [nd |-> 1, out |-> [q \in 1..n |-> IF q \in a.fin THEN Append(a.out[q], <<0, n + 1>>) ELSE a.out[q]] \o <<To(a.ini, 0)>>,
   ini |-> {n + 1}, fin |-> {n + 1}]
Factors(w) == LET m == OfWord(w) IN [m EXCEPT !.nd = 1, !.ini = States(m), !.fin = States(m)]
\* changes of the automaton itself
Added(m, q, a, r) == Trans(m) \cup {<<q, a, r>>}
Removed(m, q, a, r) == Trans(m) \ {<<q, a, r>>}
(* ------------------------------- what the operations may build ---------- *)
Numbered(S) == SetToSeq(S)
ProductOf(m1, m2, Op(_, _)) ==
  LET P == Pairs(m1, m2) \ {<<Bottom, Bottom>>}
      s == Numbered(P)
      n(x) == IF x \in P THEN CHOOSE i \in 1..Len(s) : s[i] = x ELSE Bottom
      row(x) == LET A == {a \in OutSyms(m1, x[1]) \cup OutSyms(m2, x[2]) : TRUE}  t == Numbered(A)
                IN [i \in 1..Len(t) |-> <<t[i], n(<<Delta(m1, x[1], t[i]), Delta(m2, x[2], t[i])>>)>>]
  IN [nd |-> 0, out |-> [i \in 1..Len(s) |-> row(s[i])], ini |-> n(<<m1.ini, m2.ini>>), fin |-> {i \in 1..Len(s) : Op(F(m1, s[i][1]), F(m2, s[i][2]))}]
\* one state for each class of states with the same future
Quotient(m) ==
  LET c == MooreClasses(m)  reps == {c[q] : q \in States(m)}  s == Numbered(reps)
      n(q) == CHOOSE i \in 1..Len(s) : s[i] = c[q]
  IN [nd |-> 0, out |-> [i \in 1..Len(s) |-> [j \in 1..Len(m.out[s[i]]) |-> <<m.out[s[i]][j][1], n(m.out[s[i]][j][2])>>]],
      ini |-> IF m.ini = Bottom THEN Bottom ELSE n(m.ini), fin |-> {i \in 1..Len(s) : s[i] \in m.fin}]
\* the states on a path from the initial state to a final one
Trim(m) ==
  LET U == Reachable(m) \cap Coreachable(m)  s == Numbered(U)
      n(q) == CHOOSE i \in 1..Len(s) : s[i] = q
  IN [nd |-> 0, out |-> [i \in 1..Len(s) |-> LET k == SelectSeq(m.out[s[i]], LAMBDA x : x[2] \in U) IN [j \in 1..Len(k) |-> <<k[j][1], n(k[j][2])>>]],
      ini |-> IF m.ini \in U THEN n(m.ini) ELSE Bottom, fin |-> {i \in 1..Len(s) : s[i] \in m.fin}]
=============================================================================
