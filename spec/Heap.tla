-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* A priority queue: the sequence of its entries in insertion order, each  *)
(* <<element, key>>.  pop takes the first entry of least key.              *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC

Min(q) == CHOOSE k \in {q[i][2] : i \in 1..Len(q)} : \A j \in 1..Len(q) : k <= q[j][2]
\* index of the entry to be popped
First(q) == CHOOSE i \in 1..Len(q) : q[i][2] = Min(q) /\ \A j \in 1..(i-1) : q[j][2] # Min(q)
Without(q, i) == [j \in 1..(Len(q) - 1) |-> IF j < i THEN q[j] ELSE q[j + 1]]

Push(q, el, k) == Append(q, <<el, k>>)
Pop(q)         == Without(q, First(q))
\* the key of every occurrence of el is evaluated anew
Rekey(q, el, k) == [i \in 1..Len(q) |-> IF q[i][1] = el THEN <<el, k>> ELSE q[i]]
RECURSIVE Drain(_)
Drain(q) == IF q = <<>> THEN <<>> ELSE <<q[First(q)]>> \o Drain(Pop(q))

(* ---- the same queue kept sorted: a refinement, cheaper to evaluate ---- *)
\* [n: number of insertions so far, d: <<element, key, insertion rank>> in the order in which they will be popped]
Before(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])
Sorted(q) == [n |-> Len(q), d |-> SortSeq([i \in 1..Len(q) |-> <<q[i][1], q[i][2], i>>], Before)]
SPush(s, el, k) == LET x == <<el, k, s.n + 1>>
                       Lo(y) == Before(y, x)  Hi(y) == ~Before(y, x)
                   IN [n |-> s.n + 1, d |-> SelectSeq(s.d, Lo) \o <<x>> \o SelectSeq(s.d, Hi)]
SPop(s) == [s EXCEPT !.d = Tail(@)]
SRekey(s, el, k) == [s EXCEPT !.d = SortSeq([i \in 1..Len(@) |-> IF @[i][1] = el THEN <<el, k, @[i][3]>> ELSE @[i]], Before)]
Listed(s) == [i \in 1..Len(s.d) |-> <<s.d[i][1], s.d[i][2]>>]

Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
\* draining is a stable sort
SortedOK(q) ==
  LET d == Drain(q) IN
  /\ Len(d) = Len(q)
  /\ \A i \in 1..Len(q) : Count(d, q[i]) = Count(q, q[i])
  /\ \A i \in 1..(Len(d)-1) : d[i][2] <= d[i+1][2]
StableOK(q) ==
  \A i, j \in 1..Len(q) : i < j /\ q[i][2] = q[j][2] /\ q[i] # q[j] /\ Count(q, q[i]) = 1 /\ Count(q, q[j]) = 1 =>
    LET d == Drain(q) IN (CHOOSE x \in 1..Len(d) : d[x] = q[i]) < (CHOOSE x \in 1..Len(d) : d[x] = q[j])
=============================================================================
