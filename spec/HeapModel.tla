------------------------------ MODULE HeapModel -----------------------------
(* Every history of a small priority queue; the array representation used by the code *)
(* (a binary heap of <<key, rank, element>>) is checked to have the entry popped at its root. *)
EXTENDS Heap, Json
CONSTANTS Els, KeySet, MaxLen
VARIABLES q, sq, act
Init == q = <<>> /\ sq = Sorted(<<>>) /\ act = <<"init">>
Next == \/ \E e \in Els, k \in KeySet : Len(q) < MaxLen /\ q' = Push(q, e, k) /\ sq' = SPush(sq, e, k) /\ act' = <<"push", e, k>>
        \/ q # <<>> /\ q' = Pop(q) /\ sq' = SPop(sq) /\ act' = <<"pop">>
        \/ \E e \in Els, k \in KeySet : (\E i \in 1..Len(q) : q[i][1] = e) /\ q' = Rekey(q, e, k) /\ sq' = SRekey(sq, e, k) /\ act' = <<"rekey", e, k>>
Spec == Init /\ [][Next]_<<q, sq, act>>
SortOK == SortedOK(q)
RefineOK == Listed(sq) = Drain(q) /\ Listed(Sorted(q)) = Drain(q)
FifoOK == StableOK(q)
\* Every arrangement of the entries in an array that satisfies the heap order keeps First(q) at the root.
Less(a, b) == q[a][2] < q[b][2] \/ (q[a][2] = q[b][2] /\ a < b)
Arrangements == {p \in [1..Len(q) -> 1..Len(q)] : \A i, j \in 1..Len(q) : i # j => p[i] # p[j]}
HeapOrdered(p) == \A i \in 2..Len(q) : Less(p[i \div 2], p[i])
RootOK == q # <<>> => \A p \in Arrangements : HeapOrdered(p) => p[1] = First(q)
\* nothing is lost or made up
Conserve == [][/\ act'[1] = "pop" => Len(q') = Len(q) - 1 /\ \A i \in 1..Len(q) : Count(q', q[i]) = Count(q, q[i]) - (IF q[i] = q[First(q)] THEN 1 ELSE 0)
               /\ act'[1] = "push" => Len(q') = Len(q) + 1
               /\ act'[1] = "rekey" => Len(q') = Len(q)]_<<q, sq, act>>
Emit == PrintT(ToJson(<<"T", q, act', q'>>))
AbsView == q
=============================================================================
