-------------------------------- MODULE Moore -------------------------------
(***************************************************************************)
(* Determinization: what a deterministic automaton m must be for a given   *)
(* non-deterministic automaton n (symbol 0 is the empty word).             *)
(***************************************************************************)
EXTENDS Lang
Letters(n) == Syms(n) \ {0}
\* reached set of states of n and state of m, for every word
Track(n, m) ==
  LET Nx(x, a) == <<NDelta(n, x[1], a), Delta(m, x[2], a)>>
  IN JointFrom(<<NStart(n), m.ini>>, Letters(n) \cup Syms(m), Nx)
\* no transition once no run exists
NoDead(n, m, T) == \A x \in T : IF x[1] = {} THEN x[2] = Bottom \/ (x[2] = m.ini /\ NStart(n) = {} /\ m.out[x[2]] = <<>>) ELSE x[2] # Bottom
Determinizes(n, m, complete) ==
  LET T == Track(n, m) IN
  /\ DetWF(m) /\ m.ini # Bottom
  /\ \A x \in T : NF(n, x[1]) <=> F(m, x[2])                         \* same words
  /\ {x[2] : x \in T} \ {Bottom} = States(m)                         \* every state is reachable
  /\ \A x, y \in T : x[2] # Bottom /\ y[2] # Bottom => (x[1] = y[1] <=> x[2] = y[2])   \* one state per reached set
  /\ Syms(m) \subseteq Letters(n)
  /\ IF complete THEN IsComplete(m, Letters(n))
     ELSE NoDead(n, m, T)
=============================================================================
