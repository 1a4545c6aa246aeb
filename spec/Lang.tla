-------------------------------- MODULE Lang --------------------------------
(***************************************************************************)
(* Automata as values, and exact comparison of their languages.            *)
(*   m = [out, ini, fin]                                                   *)
(*   states are 1..Len(m.out); 0 is Bottom; out[q] is a sequence of moves  *)
(*   <<symbol, target>>; ini the initial state, or 0; fin the final states.*)
(* A non-deterministic automaton has a set of initial states in ini and    *)
(* moves with the symbol 0 read the empty word.                            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
Bottom == 0
States(m) == 1..Len(m.out)
OutSyms(m, q) == IF q = Bottom THEN {} ELSE {m.out[q][i][1] : i \in 1..Len(m.out[q])}
Syms(m) == UNION {OutSyms(m, q) : q \in States(m)}
Trans(m) == UNION {{<<q, m.out[q][i][1], m.out[q][i][2]>> : i \in 1..Len(m.out[q])} : q \in States(m)}
IsDet(m) == \A q \in States(m) : Cardinality(OutSyms(m, q)) = Len(m.out[q])
WF(m) == /\ \A q \in States(m) : \A i \in 1..Len(m.out[q]) : m.out[q][i][2] \in States(m)
         /\ m.fin \subseteq States(m)
DetWF(m) == WF(m) /\ IsDet(m) /\ m.ini \in States(m) \cup {Bottom}

(* ------------------------------------------------ deterministic runs ---- *)
Delta(m, q, a) == IF q = Bottom THEN Bottom
                  ELSE LET is == {i \in 1..Len(m.out[q]) : m.out[q][i][1] = a}
                       IN IF is = {} THEN Bottom ELSE m.out[q][CHOOSE i \in is : TRUE][2]
RECURSIVE Run(_, _, _)
Run(m, q, w) == IF w = <<>> \/ q = Bottom THEN q ELSE Run(m, Delta(m, q, Head(w)), Tail(w))
Accepts(m, w) == LET q == Run(m, m.ini, w) IN q # Bottom /\ q \in m.fin
F(m, q) == q # Bottom /\ q \in m.fin

(* -------------------------------------------- non-deterministic runs ---- *)
RECURSIVE EpsFix(_, _, _)
EpsFix(m, S, front) ==
  IF front = {} THEN S
  ELSE LET n == UNION {{m.out[q][i][2] : i \in {j \in 1..Len(m.out[q]) : m.out[q][j][1] = 0}} : q \in front} \ S
       IN EpsFix(m, S \cup n, n)
Close(m, S) == EpsFix(m, S, S)
NDelta(m, S, a) == Close(m, UNION {{m.out[q][i][2] : i \in {j \in 1..Len(m.out[q]) : m.out[q][j][1] = a}} : q \in S})
NStart(m) == Close(m, m.ini)
NF(m, S) == S \cap m.fin # {}
RECURSIVE NRun(_, _, _)
NRun(m, S, w) == IF w = <<>> THEN S ELSE NRun(m, NDelta(m, S, Head(w)), Tail(w))
NAccepts(m, w) == NF(m, NRun(m, NStart(m), w))

(* --------------------------------------- joint reachability (exact) ----- *)
\* Next(x, a): what the joint state x becomes on the symbol a
JointFrom(x0, L, Next(_, _)) ==
  LET RECURSIVE J(_, _)
      J(S, front) == IF front = {} THEN S
                     ELSE LET n == {Next(x, a) : x \in front, a \in L} \ S IN J(S \cup n, n)
  IN J({x0}, {x0})

\* pairs of states of two deterministic automata reached by a common word
Pairs(m1, m2) ==
  LET Nx(x, a) == <<Delta(m1, x[1], a), Delta(m2, x[2], a)>>
  IN JointFrom(<<m1.ini, m2.ini>>, Syms(m1) \cup Syms(m2), Nx)
Included(m1, m2) == \A x \in Pairs(m1, m2) : F(m1, x[1]) => F(m2, x[2])
SameLang(m1, m2) == \A x \in Pairs(m1, m2) : F(m1, x[1]) <=> F(m2, x[2])
Relation(m1, m2) ==      \* "eq", "lt" (first strictly included), "gt", "no"
  LET P == Pairs(m1, m2)
      only1 == \E x \in P : F(m1, x[1]) /\ ~F(m2, x[2])
      only2 == \E x \in P : F(m2, x[2]) /\ ~F(m1, x[1])
  IN IF only1 THEN IF only2 THEN "no" ELSE "gt" ELSE IF only2 THEN "lt" ELSE "eq"
\* op(f1, f2) is the finality of the combination
IsCombination(m1, m2, m, Op(_, _)) ==
  LET Nx(x, a) == <<Delta(m1, x[1], a), Delta(m2, x[2], a), Delta(m, x[3], a)>>
  IN \A x \in JointFrom(<<m1.ini, m2.ini, m.ini>>, Syms(m1) \cup Syms(m2) \cup Syms(m), Nx) :
       F(m, x[3]) <=> Op(F(m1, x[1]), F(m2, x[2]))
Or(a, b) == a \/ b
And(a, b) == a /\ b
IsUnion(m1, m2, m) == IsCombination(m1, m2, m, Or)
IsIntersection(m1, m2, m) == IsCombination(m1, m2, m, And)
\* a deterministic automaton accepts the words of a non-deterministic one
SameNfaDfa(n, m) ==
  LET Nx(x, a) == <<NDelta(n, x[1], a), Delta(m, x[2], a)>>
  IN \A x \in JointFrom(<<NStart(n), m.ini>>, (Syms(n) \ {0}) \cup Syms(m), Nx) : NF(n, x[1]) <=> F(m, x[2])
SameNfaNfa(n, m) ==
  LET Nx(x, a) == <<NDelta(n, x[1], a), NDelta(m, x[2], a)>>
  IN \A x \in JointFrom(<<NStart(n), NStart(m)>>, (Syms(n) \cup Syms(m)) \ {0}, Nx) : NF(n, x[1]) <=> NF(m, x[2])

(* --------------------------------------------------- states and words --- *)
Reachable(m) == LET Nx(x, a) == Delta(m, x, a) IN JointFrom(m.ini, Syms(m), Nx) \ {Bottom}
IsComplete(m, L) == \A q \in States(m) : OutSyms(m, q) = L
RECURSIVE CoreachFix(_, _)
CoreachFix(T, S) == LET n == S \cup {t[1] : t \in {x \in T : x[3] \in S}} IN IF n = S THEN S ELSE CoreachFix(T, n)
Coreachable(m) == CoreachFix(Trans(m), m.fin)
WordsUpTo(L, n) == UNION {[1..k -> L] : k \in 0..n}
\* coarsest partition of the states respected by finality and moves, as a function state -> class (Moore)
RECURSIVE Refine(_, _, _)
Refine(m, L, cls) ==
  LET sig == [q \in States(m) |-> <<cls[q], [a \in L |-> IF Delta(m, q, a) = Bottom THEN -1 ELSE cls[Delta(m, q, a)]]>>]
      new == [q \in States(m) |-> CHOOSE r \in States(m) : sig[r] = sig[q] /\ \A p \in States(m) : sig[p] = sig[q] => r <= p]
  IN IF new = cls THEN cls ELSE Refine(m, L, new)
Initially(m) == [q \in States(m) |-> CHOOSE r \in States(m) : (r \in m.fin <=> q \in m.fin) /\ \A p \in States(m) : (p \in m.fin <=> q \in m.fin) => r <= p]
MooreClasses(m) == Refine(m, Syms(m), Initially(m))
\* Nerode equivalence of two states, by joint reachability
Equivalent(m, p, q) ==
  LET Nx(x, a) == <<Delta(m, x[1], a), Delta(m, x[2], a)>>
  IN \A x \in JointFrom(<<p, q>>, Syms(m), Nx) : F(m, x[1]) <=> F(m, x[2])
=============================================================================
