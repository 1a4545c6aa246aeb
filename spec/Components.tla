----------------------------- MODULE Components -----------------------------
(* Strong components and topological orders of a directed graph (vs, set of arcs <<u, v>>). *)
EXTENDS Integers, FiniteSets, Sequences
RECURSIVE Fwd(_, _)
Fwd(arcs, us) == LET n == us \cup {a[2] : a \in {x \in arcs : x[1] \in us}} IN IF n = us THEN us ELSE Fwd(arcs, n)
Rev(arcs) == {<<a[2], a[1]>> : a \in arcs}

\* ---- definition: comp numbers the classes of mutual reachability 0..n-1, arcs between classes descend
SccByDef(vs, arcs, comp, n) ==
  /\ \A u \in vs, v \in vs : (comp[u] = comp[v]) <=> (v \in Fwd(arcs, {u}) /\ u \in Fwd(arcs, {v}))
  /\ {comp[v] : v \in vs} = 0..(n-1)
  /\ \A a \in arcs : comp[a[1]] # comp[a[2]] => comp[a[1]] > comp[a[2]]
\* ---- the same, cheaper: descending arcs cannot be on a cycle, so it is enough that each class is strongly connected
ClassConnected(vs, arcs, comp, i) ==
  LET cls == {v \in vs : comp[v] = i}
      r == CHOOSE v \in cls : TRUE
      inner == {a \in arcs : comp[a[1]] = i /\ comp[a[2]] = i}
  IN Fwd(inner, {r}) = cls /\ Fwd(Rev(inner), {r}) = cls
Descends(arcs, comp) == \A a \in arcs : comp[a[1]] >= comp[a[2]]
Scc(vs, arcs, comp, n) == /\ {comp[v] : v \in vs} = 0..(n-1)
                          /\ Descends(arcs, comp)
                          /\ \A i \in 0..(n-1) : ClassConnected(vs, arcs, comp, i)

\* ---- acyclicity: peel off vertices without incoming arc
RECURSIVE Peel(_, _)
Peel(vs, arcs) == LET rest == {a[2] : a \in {x \in arcs : x[1] \in vs /\ x[2] \in vs}}
                  IN IF rest \cap vs = vs THEN vs ELSE Peel(vs \cap rest, arcs)
Acyclic(vs, arcs) == Peel(vs, arcs) = {}
TopoSorted(vs, arcs, q) ==
  /\ Len(q) = Cardinality(vs) /\ {q[i] : i \in 1..Len(q)} = vs
  /\ LET pos == [v \in vs |-> CHOOSE i \in 1..Len(q) : q[i] = v] IN \A a \in arcs : pos[a[1]] < pos[a[2]]
=============================================================================
