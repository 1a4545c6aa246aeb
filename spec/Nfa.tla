-------------------------------- MODULE Nfa ---------------------------------
(***************************************************************************)
(* Non-deterministic automata with empty-word moves as a value.             *)
(* tr: set of <<q, a, r>>; Eps is the empty-word symbol.                    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
Eps == 0
NewNfa(n, init, fin) == [vs |-> 0..(n-1), nxt |-> n, tr |-> {}, ini |-> init, fin |-> fin]

(* --------------------------------------------------------- observers ---- *)
OneStep(m, qs, a) == {t[3] : t \in {x \in m.tr : x[1] \in qs /\ x[2] = a}}
\* the states reached by empty-word moves; new: those not looked at yet
RECURSIVE ClosureFrom(_, _, _)
ClosureFrom(m, qs, new) == IF new = {} THEN qs ELSE LET n == OneStep(m, new, Eps) \ qs IN ClosureFrom(m, qs \cup n, n)
Closure(m, qs) == ClosureFrom(m, qs, qs)
Delta(m, q, a) == Closure(m, OneStep(m, Closure(m, {q}), a))
Sigma(m, q) == LET c == Closure(m, {q}) IN {t[2] : t \in {x \in m.tr : x[1] \in c}} \ {Eps}
Alphabet(m) == {t[2] : t \in m.tr} \ {Eps}
RECURSIVE RunFrom(_, _, _)
RunFrom(m, qs, w) == IF w = <<>> THEN qs ELSE RunFrom(m, Closure(m, OneStep(m, qs, Head(w))), Tail(w))
DeltaWord(m, w) == RunFrom(m, Closure(m, m.ini), w)
Accepts(m, w) == DeltaWord(m, w) \cap m.fin # {}
Finals(m) == m.fin \cap m.vs

(* --------------------------------------------------------- mutators ---- *)
AddState(m) == [m EXCEPT !.vs = @ \cup {m.nxt}, !.nxt = @ + 1]
AddTr(m, q, a, r) == [m EXCEPT !.tr = @ \cup {<<q, a, r>>}]
DelTr(m, q, a, r) == [m EXCEPT !.tr = @ \ {<<q, a, r>>}]
DelState(m, u) == [m EXCEPT !.vs = @ \ {u}, !.fin = @ \ {u}, !.ini = @ \ {u}, !.tr = {t \in @ : t[1] # u /\ t[3] # u}]
SetFinal(m, q, b) == [m EXCEPT !.fin = IF b THEN @ \cup {q} ELSE @ \ {q}]
SetInitial(m, q, b) == [m EXCEPT !.ini = IF b THEN @ \cup {q} ELSE @ \ {q}]
SetInitials(m, qs) == [m EXCEPT !.ini = qs]

(* ---------------------------------------------------------- theorems ---- *)
WellFormed(m) == /\ \A v \in m.vs : v < m.nxt
                 /\ \A t \in m.tr : t[1] \in m.vs /\ t[3] \in m.vs
                 /\ m.fin \subseteq m.vs /\ m.ini \subseteq m.vs
Words(L, n) == UNION {[1..k -> L] : k \in 0..n}
\* a run that may insert empty-word moves: an explicit sequence of states and labels
Paths(m, k) == {p \in [1..(k+1) -> m.vs] : \A i \in 1..k : \E a \in {0} \cup Alphabet(m) : <<p[i], a, p[i+1]>> \in m.tr}
RECURSIVE Strip(_)
Strip(w) == IF w = <<>> THEN <<>> ELSE IF Head(w) = Eps THEN Strip(Tail(w)) ELSE <<Head(w)>> \o Strip(Tail(w))
\* the words (with empty-word moves) read along some path of k moves between initial and final states
AcceptsByRun(m, w, bound) ==
  \E k \in 0..bound : \E p \in [1..(k+1) -> m.vs], lab \in [1..k -> {Eps} \cup Alphabet(m)] :
    /\ p[1] \in m.ini /\ p[k+1] \in m.fin
    /\ \A i \in 1..k : <<p[i], lab[i], p[i+1]>> \in m.tr
    /\ Strip(lab) = w
=============================================================================
