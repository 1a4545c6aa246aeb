-------------------------------- MODULE BkTree --------------------------------
(***************************************************************************)
(* BK-trees over elements 1..n with the distances d[x][y] (a metric).      *)
(* A tree is [el, up, lab]: for each node 1, 2, ... in the order of their  *)
(* creation its element, its parent (0: root) and the label of the edge    *)
(* from its parent.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
NoTree == [el |-> <<>>, up |-> <<>>, lab |-> <<>>]
NodesOf(t) == 1..Len(t.el)
IsMetric(d) == LET E == DOMAIN d IN
  /\ \A x, y \in E : d[x][y] = d[y][x] /\ (d[x][y] = 0 <=> x = y)
  /\ \A x, y, z \in E : d[x][z] <= d[x][y] + d[y][z]
Kid(t, u, a) == {v \in NodesOf(t) : t.up[v] = u /\ t.lab[v] = a}
\* <<node where the walk for x ends, whether it is the node of x>>
RECURSIVE Place(_, _, _, _)
Place(t, d, x, u) == IF d[x][t.el[u]] = 0 THEN <<u, TRUE>>
                     ELSE LET k == Kid(t, u, d[x][t.el[u]]) IN
                          IF k = {} THEN <<u, FALSE>> ELSE Place(t, d, x, CHOOSE v \in k : TRUE)
Insert(t, d, x) ==
  IF t.el = <<>> THEN [el |-> <<x>>, up |-> <<0>>, lab |-> <<0>>]
  ELSE LET p == Place(t, d, x, 1) IN
       IF p[2] THEN t ELSE [el |-> Append(t.el, x), up |-> Append(t.up, p[1]), lab |-> Append(t.lab, d[x][t.el[p[1]]])]
RECURSIVE Above(_, _)
Above(t, u) == IF t.up[u] = 0 THEN {} ELSE {<<t.up[u], t.lab[u]>>} \cup {<<a[1], a[2]>> : a \in Above(t, t.up[u])}
Below(t, u) == {v \in NodesOf(t) : v = u \/ u \in {a[1] : a \in Above(t, v)}}
\* every element once, every sub-tree at the distance of its label
RECURSIVE Branch(_, _, _)
Branch(t, u, v) == IF t.up[v] = u THEN t.lab[v] ELSE Branch(t, u, t.up[v])
ShapeOK(t, d) ==
  /\ \A u, v \in NodesOf(t) : u # v => t.el[u] # t.el[v]
  /\ \A u \in NodesOf(t) : t.up[u] < u /\ (t.up[u] = 0 <=> u = 1)
  /\ \A u, v \in NodesOf(t) : u # v /\ t.up[u] = t.up[v] => t.lab[u] # t.lab[v]
  /\ \A v \in NodesOf(t) : \A u \in {a[1] : a \in Above(t, v)} : d[t.el[u]][t.el[v]] = Branch(t, u, v)
\* the right answers to a search below node r within radius m (-1: no bound): pairs <<element, distance>>
Nearest(t, d, x, m, r) ==
  IF t.el = <<>> THEN {}
  ELSE LET S == {t.el[v] : v \in Below(t, r)}
           k == CHOOSE k \in {d[x][y] : y \in S} : \A y \in S : k <= d[x][y]
       IN IF m # -1 /\ k > m THEN {} ELSE {<<y, k>> : y \in {z \in S : d[x][z] = k}}
=============================================================================
