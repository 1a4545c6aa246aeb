------------------------------ MODULE EditModel ------------------------------
(***************************************************************************)
(* 1. Words are edited step by step: after k operations the table's        *)
(*    distance is at most k (Sound), and as long as it is not 0 some       *)
(*    operation decreases it (Tight): it is the least number of operations.*)
(* 2. Two words are aligned from left to right with matches, deletions,    *)
(*    insertions, substitutions and transpositions: every alignment costs  *)
(*    at least the table's distance (Cheapest), and in every position some *)
(*    step lets the sum of cost and remaining distance unchanged           *)
(*    (Reachable).  Always matching equal symbols loses nothing (Greedy).  *)
(***************************************************************************)
EXTENDS Edit, TLC
CONSTANTS L, MaxLen, MaxOps, Mode    \* Mode: "lev", "lcs", "osa"
VARIABLES x, y, cost, x0, y0
Words == UNION {[1..k -> L] : k \in 0..MaxLen}
D(u, v) == CASE Mode = "lev" -> Lev(u, v) [] Mode = "lcs" -> Lcs(u, v) [] Mode = "osa" -> Osa(u, v)
\* x: the word edited so far (or what is left to align); y: the other word
all == <<x, y, cost, x0, y0>>
Init == /\ x \in Words /\ cost = 0 /\ y \in (IF Mode = "osa" THEN Words ELSE {x}) /\ x0 = x /\ y0 = y
Edit1 == /\ Mode # "osa" /\ cost < MaxOps /\ \E w \in Edits(y, L, Mode = "lev") : Len(w) <= MaxLen + 1 /\ y' = w
         /\ cost' = cost + 1 /\ UNCHANGED <<x, x0, y0>>
Drop(w, k) == SubSeq(w, k + 1, Len(w))
Align(i, j, c) == Len(x) >= i /\ Len(y) >= j /\ x' = Drop(x, i) /\ y' = Drop(y, j) /\ cost' = cost + c /\ UNCHANGED <<x0, y0>>
Align1 == /\ Mode = "osa"
          /\ \/ x # <<>> /\ y # <<>> /\ Align(1, 1, IF x[1] = y[1] THEN 0 ELSE 1)
             \/ Align(1, 0, 1) \/ Align(0, 1, 1)
             \/ Len(x) >= 2 /\ Len(y) >= 2 /\ x[1] = y[2] /\ x[2] = y[1] /\ Align(2, 2, 1)
Next == Edit1 \/ Align1
Spec == Init /\ [][Next]_all
Sound == IF Mode = "osa" THEN D(x0, y0) <= cost + D(x, y) ELSE D(x0, y) <= cost
Tight == Mode # "osa" /\ D(x0, y) > 0 => \E w \in Edits(y, L, Mode = "lev") : D(x0, w) = D(x0, y) - 1
Step(i, j, c) == Len(x) >= i /\ Len(y) >= j /\ D(Drop(x, i), Drop(y, j)) + c = D(x, y)
Reaches == Mode = "osa" /\ (x # <<>> \/ y # <<>>) =>
             \/ Step(1, 0, 1) \/ Step(0, 1, 1)
             \/ (x # <<>> /\ y # <<>> /\ Step(1, 1, IF x[1] = y[1] THEN 0 ELSE 1))
             \/ (Len(x) >= 2 /\ Len(y) >= 2 /\ x[1] = y[2] /\ x[2] = y[1] /\ Step(2, 2, 1))
Greedy == x # <<>> /\ y # <<>> /\ x[1] = y[1] => D(Drop(x, 1), Drop(y, 1)) = D(x, y)
Symmetric == D(x, y) = D(y, x)
Metric == Mode # "osa" /\ Len(x) <= 2 => \A z \in Words : D(x, z) <= D(x, y) + D(y, z)
=============================================================================
