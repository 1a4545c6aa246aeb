-------------------------------- MODULE Copy --------------------------------
(***************************************************************************)
(* The relevant reachable part of a graph, its copies, and vertex cuts.    *)
(* x = [dir, vs, es, s, vrel, erel]: es a sequence of edges <<u, v>>, s a  *)
(* source vertex, vrel the relevant vertices, erel the (indices of the)    *)
(* relevant edges.  An undirected edge can be walked both ways.            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
EdgeIds(x) == 1..Len(x.es)
Walkable(x) == {i \in x.erel : x.es[i][1] \in x.vrel /\ x.es[i][2] \in x.vrel}
RECURSIVE PartFix(_, _, _)
PartFix(x, ids, us) ==
  LET n == us \cup {x.es[i][2] : i \in {j \in ids : x.es[j][1] \in us}}
              \cup (IF x.dir THEN {} ELSE {x.es[i][1] : i \in {j \in ids : x.es[j][2] \in us}})
  IN IF n = us THEN us ELSE PartFix(x, ids, n)
PartV(x) == PartFix(x, Walkable(x), {x.s})
PartE(x) == LET R == PartV(x) IN {i \in Walkable(x) : x.es[i][1] \in R /\ x.es[i][2] \in R}

\* m: vertices of the part -> new vertices, em: edges of the part -> new edges <<u, v, name>>
IsCopy(x, m, em, dvs, des) ==
  /\ DOMAIN m = PartV(x) /\ DOMAIN em = PartE(x)
  /\ dvs = {m[u] : u \in DOMAIN m} /\ Cardinality(dvs) = Cardinality(DOMAIN m)       \* one to one and onto
  /\ des = {em[i] : i \in DOMAIN em} /\ Cardinality(des) = Cardinality(DOMAIN em)
  /\ \A i \in DOMAIN em : LET a == m[x.es[i][1]]  b == m[x.es[i][2]] IN
       <<em[i][1], em[i][2]>> = <<a, b>> \/ (~x.dir /\ <<em[i][1], em[i][2]>> = <<b, a>>)

\* ---- vertex cut of the edges cut (indices), x.dir
CutReached(x, cut) == PartFix(x, EdgeIds(x) \ cut, {x.s})
VertexCut(x, cut) ==
  LET R == CutReached(x, cut)
      from(u) == {i \in EdgeIds(x) : x.es[i][1] = u}
  IN {x.es[i][2] : i \in {j \in cut : x.es[j][1] \in R}} \cup {u \in R : from(u) = {}}
=============================================================================
