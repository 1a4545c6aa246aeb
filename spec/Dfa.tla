-------------------------------- MODULE Dfa ---------------------------------
(***************************************************************************)
(* Deterministic automata as a value, with their mutators and observers.   *)
(*   tr  : set of transitions <<q, a, r>>, functional in <<q, a>>           *)
(*   q0  : initial state, or None                                          *)
(*   kind: "edge" (labels on transitions) or "node" (the label of a         *)
(*         transition is the symbol of its target)                         *)
(* Symbols are numbers; Bottom is the missing state.                        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
None == -1
Bottom == -1

New(kind, n, q0, fin) ==
  [kind |-> kind, vs |-> 0..(n-1), nxt |-> n, tr |-> {}, q0 |-> q0, fin |-> fin, sym |-> [v \in 0..(n-1) |-> 0]]

(* --------------------------------------------------------- observers ---- *)
Delta(m, q, a) == LET rs == {t[3] : t \in {x \in m.tr : x[1] = q /\ x[2] = a}}
                  IN IF rs = {} THEN Bottom ELSE CHOOSE r \in rs : TRUE
RECURSIVE DeltaWord(_, _, _)
DeltaWord(m, q, w) == IF w = <<>> \/ q = Bottom THEN q ELSE DeltaWord(m, Delta(m, q, Head(w)), Tail(w))
Sigma(m, q) == {t[2] : t \in {x \in m.tr : x[1] = q}}
InUse(m) == {t[2] : t \in m.tr}
Alphabet(m) == IF m.kind = "node" THEN {m.sym[q] : q \in m.vs \ {m.q0}} ELSE InUse(m)
Finals(m) == m.fin \cap m.vs
Accepts(m, w) == LET q == DeltaWord(m, m.q0, w) IN q # Bottom /\ q \in m.fin
Complete(m) == \A q \in m.vs : Sigma(m, q) = Alphabet(m)
\* longest prefix of w that can be read from q, and the state it leads to
RECURSIVE BestEffort(_, _, _, _)
BestEffort(m, q, w, i) ==
  IF i = Len(w) THEN <<q, i>>
  ELSE LET r == Delta(m, q, w[i+1]) IN IF r = Bottom THEN <<q, i>> ELSE BestEffort(m, r, w, i + 1)

(* --------------------------------------------------------- mutators ---- *)
AddState(m, a) == [m EXCEPT !.vs = @ \cup {m.nxt}, !.nxt = @ + 1,
                            !.sym = [v \in DOMAIN @ \cup {m.nxt} |-> IF v = m.nxt THEN a ELSE @[v]]]
LabelOf(m, r, a) == IF m.kind = "node" THEN m.sym[r] ELSE a
CanAdd(m, q, a) == Delta(m, q, a) = Bottom
AddTr(m, q, r, a) == IF CanAdd(m, q, a) THEN [m EXCEPT !.tr = @ \cup {<<q, a, r>>}] ELSE m
DelTr(m, q, a) == [m EXCEPT !.tr = {t \in @ : ~(t[1] = q /\ t[2] = a)}]
DelState(m, u) == [m EXCEPT !.vs = @ \ {u}, !.fin = @ \ {u}, !.tr = {t \in @ : t[1] # u /\ t[3] # u}]
SetInitial(m, q, b) == [m EXCEPT !.q0 = IF b THEN q ELSE IF @ = q THEN None ELSE @]
SetFinal(m, q, b) == [m EXCEPT !.fin = IF b THEN @ \cup {q} ELSE @ \ {q}]
\* make m accept w by adding the missing suffix as a fresh chain
RECURSIVE Chain(_, _, _)
Chain(m, q, w) == IF w = <<>> THEN SetFinal(m, q, TRUE)
                  ELSE Chain(AddTr(AddState(m, 0), q, m.nxt, Head(w)), m.nxt, Tail(w))
InsertString(m, w) == LET b == BestEffort(m, m.q0, w, 0)
                      IN Chain(m, b[1], SubSeq(w, b[2] + 1, Len(w)))

(* --------------------------------------------------------- theorems ---- *)
WellFormed(m) == /\ \A v \in m.vs : v < m.nxt
                 /\ \A t \in m.tr : t[1] \in m.vs /\ t[3] \in m.vs
                 /\ m.fin \subseteq m.vs
Deterministic(m) == \A t \in m.tr, x \in m.tr : (t[1] = x[1] /\ t[2] = x[2]) => t = x
NodeLabels(m) == m.kind = "node" => \A t \in m.tr : t[2] = m.sym[t[3]]
Words(L, n) == UNION {[1..k -> L] : k \in 0..n}
\* acceptance by existence of a path agrees with the functional run
IsRun(m, p, w) == Len(p) = Len(w) + 1 /\ \A i \in 1..Len(w) : <<p[i], w[i], p[i+1]>> \in m.tr
AcceptsByPath(m, w) == m.q0 # None /\ \E p \in [1..(Len(w)+1) -> m.vs] :
                         p[1] = m.q0 /\ IsRun(m, p, w) /\ p[Len(p)] \in m.fin
=============================================================================
