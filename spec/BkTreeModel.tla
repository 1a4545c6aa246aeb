----------------------------- MODULE BkTreeModel -----------------------------
(* Every metric with small values on a few elements, every order of insertion, every query and radius;
   the search takes the pending nodes in any order. *)
EXTENDS BkTree, TLC
CONSTANTS N, MaxD, Strict      \* Strict: the wrong cut-off "<"
VARIABLES d, t, todo, query, best, searching
vars == <<d, t, todo, query, best, searching>>
Pairs2 == {p \in (1..N) \X (1..N) : p[1] < p[2]}
Init == /\ \E f \in [Pairs2 -> 1..MaxD] : d = [x \in 1..N |-> [y \in 1..N |-> IF x = y THEN 0 ELSE IF x < y THEN f[<<x, y>>] ELSE f[<<y, x>>]]]
        /\ IsMetric(d)
        /\ t = NoTree /\ todo = {} /\ query = <<0, 0>> /\ best = <<0, 0>> /\ searching = FALSE
Put == /\ ~searching /\ \E x \in 1..N : t' = Insert(t, d, x)
       /\ UNCHANGED <<d, todo, query, best, searching>>
Ask == /\ ~searching /\ t.el # <<>>
       /\ \E x \in 1..N, m \in 0..MaxD : query' = <<x, m>> /\ best' = <<0, m>>
       /\ todo' = {1} /\ searching' = TRUE /\ UNCHANGED <<d, t>>
Look == /\ searching
        /\ \E u \in todo :
             LET k == d[query[1]][t.el[u]]
                 b == IF k <= best[2] THEN <<t.el[u], k>> ELSE best
                 gap(v) == IF t.lab[v] < k THEN k - t.lab[v] ELSE t.lab[v] - k
             IN /\ best' = b
                /\ todo' = (todo \ {u}) \cup {v \in NodesOf(t) : t.up[v] = u /\ (IF Strict THEN gap(v) < b[2] ELSE gap(v) <= b[2])}
        /\ UNCHANGED <<d, t, query, searching>>
Next == Put \/ Ask \/ Look
Spec == Init /\ [][Next]_vars /\ WF_vars(Look)
TreeOK == ShapeOK(t, d)
AnswerOK == searching /\ todo = {} =>
              LET r == Nearest(t, d, query[1], query[2], 1) IN
              IF best[1] = 0 THEN r = {} ELSE best \in r
PutTwice == \A x \in {t.el[u] : u \in NodesOf(t)} : Insert(t, d, x) = t
Ends == searching ~> (searching /\ todo = {})
=============================================================================
