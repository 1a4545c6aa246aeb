------------------------------ MODULE Fragment ------------------------------
(***************************************************************************)
(* Fragments of non-deterministic automata, as put together by Thompson's  *)
(* construction: an automaton (module Lang, symbol 0 reads the empty word) *)
(* with one initial state i and one final state f.  What each combination  *)
(* denotes, for any fragments - also ones with moves into i or out of f.   *)
(***************************************************************************)
EXTENDS Lang
Frag(out, i, f) == [out |-> out, i |-> i, f |-> f]
Nfa(g) == [out |-> g.out, ini |-> {g.i}, fin |-> {g.f}]
WFFrag(g) == WF(Nfa(g)) /\ g.i \in 1..Len(g.out) /\ g.f \in 1..Len(g.out)
Shift(out, k) == [q \in 1..Len(out) |-> [j \in 1..Len(out[q]) |-> <<out[q][j][1], out[q][j][2] + k>>]]
With(out, q, a, r) == [out EXCEPT ![q] = Append(@, <<a, r>>)]
\* the languages, as non-deterministic automata
OneOf(C) == [out |-> <<LET s == [k \in 1..Cardinality(C) |-> CHOOSE c \in C : Cardinality({d \in C : d < c}) = k - 1] IN [k \in 1..Len(s) |-> <<s[k], 2>>], <<>>>>,
             ini |-> {1}, fin |-> {2}]
CatL(g, h) == LET n == Len(g.out) IN [out |-> With(g.out, g.f, 0, h.i + n) \o Shift(h.out, n), ini |-> {g.i}, fin |-> {h.f + n}]
AltL(g, h) == LET n == Len(g.out) IN [out |-> g.out \o Shift(h.out, n), ini |-> {g.i, h.i + n}, fin |-> {g.f, h.f + n}]
\* k copies one after the other between the junctions 0..k; the last one may start again at junction k-1 if way back
RECURSIVE Copies(_, _)
Copies(g, k) == IF k = 0 THEN <<>> ELSE Copies(g, k - 1) \o Shift(g.out, (k - 1) * Len(g.out))
RepL(g, m, n) ==       \* n = -1: no bound
  LET K == IF n = -1 THEN m + 1 ELSE n
      N == Len(g.out)
      J(j) == K * N + j + 1
      c == Copies(g, K)
      row(q) == IF ((q - 1) % N) + 1 = g.f THEN Append(c[q], <<0, J((q - 1) \div N + 1)>>) ELSE c[q]
      junction(j) == IF j < K THEN <<<<0, j * N + g.i>>>> ELSE IF n = -1 THEN <<<<0, J(K - 1)>>>> ELSE <<>>
  IN [out |-> [q \in 1..K * N + K + 1 |-> IF q <= K * N THEN row(q) ELSE junction(q - K * N - 1)],
      ini |-> {J(0)}, fin |-> {J(j) : j \in m..K}]
\* the states of h stand in the automaton m for those of g2 (map) besides those of g1 (at): both are there and nothing else
Holds(m, g1, at, g2, map) ==
  LET A == {at[q] : q \in States(g1)}  B == {map[q] : q \in States(g2)} IN
  /\ States(m) = A \cup B
  /\ Cardinality(A) = Len(g1.out)
  /\ Trans(m) = {<<at[x[1]], x[2], at[x[3]]>> : x \in Trans(g1)} \cup {<<map[x[1]], x[2], map[x[3]]>> : x \in Trans(g2)}
=============================================================================
