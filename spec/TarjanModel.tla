----------------------------- MODULE TarjanModel ----------------------------
(* The algorithms used by the library - Tarjan's strong components and topological sort - as observers of *)
(* the depth-first search protocol Dfs, on every small graph and every run of the search.                 *)
EXTENDS Dfs, Components, TLC
CONSTANTS N, MaxE, Loops
VARIABLES s, time, disc, root, comp, stack, total, order, refused
vars == <<s, time, disc, root, comp, stack, total, order, refused>>
V == 0..(N-1)
BIG == 1000
Arcs3 == {<<u, v, 0>> : u \in V, v \in V} \ (IF Loops THEN {} ELSE {<<u, u, 0>> : u \in V})
A == {<<e[1], e[2]>> : e \in s.acc}
Init == /\ \E acc \in {x \in SUBSET Arcs3 : Cardinality(x) <= MaxE} : s = DfsStart(V, acc, [i \in 1..N |-> i - 1], FALSE, {})
        /\ time = 0 /\ disc = [v \in V |-> 0] /\ root = [v \in V |-> 0] /\ comp = [v \in V |-> 0]
        /\ stack = <<>> /\ total = 0 /\ order = <<>> /\ refused = FALSE
\* roots seen through the edges of u, as the library does it when u is finished
RECURSIVE Lowest(_, _)
Lowest(r, es) == IF es = {} THEN r ELSE
  LET e == CHOOSE e \in es : TRUE
      q == root[e[2]]
      r2 == IF comp[e[2]] = BIG THEN (IF disc[r] < disc[q] THEN r ELSE q) ELSE r
  IN Lowest(r2, es \ {e})
IndexOf(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
Events == ({"start", "disc", "fin"} \X V) \cup ({"edge", "tree", "back", "foc"} \X s.acc) \cup {<<"end", <<>>>>}
Next == \E ev \in Events : LET k == ev[1]  x == ev[2] IN
  /\ Allowed(s, k, x) /\ s' = Apply(s, k, x)
  /\ CASE k = "disc" -> /\ root' = [root EXCEPT ![x] = x] /\ comp' = [comp EXCEPT ![x] = BIG]
                        /\ disc' = [disc EXCEPT ![x] = time] /\ time' = time + 1
                        /\ stack' = <<x>> \o stack /\ UNCHANGED <<total, order, refused>>
       [] k = "back" -> refused' = TRUE /\ UNCHANGED <<time, disc, root, comp, stack, total, order>>
       [] k = "fin" ->
            LET r == Lowest(root[x], {e \in s.acc : e[1] = x}) IN
            /\ order' = <<x>> \o order
            /\ IF r = x
               THEN LET i == IndexOf(stack, x)
                        top == {stack[j] : j \in 1..i}
                    IN /\ comp' = [v \in V |-> IF v \in top THEN total ELSE comp[v]]
                       /\ root' = [v \in V |-> IF v \in top THEN x ELSE root[v]]
                       /\ stack' = SubSeq(stack, i + 1, Len(stack)) /\ total' = total + 1
               ELSE root' = [root EXCEPT ![x] = r] /\ UNCHANGED <<comp, stack, total>>
            /\ UNCHANGED <<time, disc, refused>>
       [] OTHER -> UNCHANGED <<time, disc, root, comp, stack, total, order, refused>>
Spec == Init /\ [][Next]_vars
SccOK == s.done => SccByDef(V, A, comp, total) /\ Scc(V, A, comp, total)
TopoOK == s.done => /\ refused <=> ~Acyclic(V, A)
                    /\ ~refused => TopoSorted(V, A, order)
                    /\ (\E p \in [1..N -> V] : TopoSorted(V, A, p)) <=> Acyclic(V, A)
\* both definitions of a right numbering agree, on right and wrong numberings alike
DefsAgree == s.done => \A c \in [V -> 0..(N-1)], n \in 0..N : SccByDef(V, A, c, n) <=> Scc(V, A, c, n)
=============================================================================
