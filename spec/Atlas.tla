-------------------------------- MODULE Atlas --------------------------------
(***************************************************************************)
(* A collection of graphs, of graphs seen backwards and of live views on   *)
(* them, that change one at a time; what each of them shows at a moment is *)
(* what every algorithm has to answer about.                               *)
(*   a graph: base = 0, vs its vertices, es its edges <<name, u, v>>       *)
(*            (names are unique for ever), back: whether it is reversed    *)
(*   a view:  base its graph, hv and he the vertices and edges it hides    *)
(***************************************************************************)
EXTENDS Components
Graph(dir) == [base |-> 0, dir |-> dir, back |-> FALSE, vs |-> {}, es |-> {}, hv |-> {}, he |-> {}]
View(b, hv, he) == [base |-> b, dir |-> TRUE, back |-> FALSE, vs |-> {}, es |-> {}, hv |-> hv, he |-> he]
Turn(es) == {<<x[1], x[3], x[2]>> : x \in es}
Shown(s, i) ==
  LET b == IF s[i].base = 0 THEN s[i] ELSE s[s[i].base]
      vs == b.vs \ s[i].hv
      es == {x \in b.es : x[1] \notin s[i].he /\ x[2] \in vs /\ x[3] \in vs}
  IN [dir |-> b.dir, vs |-> vs, es |-> IF b.back THEN Turn(es) ELSE es]
\* the steps that an edge allows
Moves(g) == {<<x[2], x[3]>> : x \in g.es} \cup (IF g.dir THEN {} ELSE {<<x[3], x[2]>> : x \in g.es})
Reach(g, u) == Fwd(Moves(g), {u})
Part(g, u) == LET R == Reach(g, u) IN [g EXCEPT !.vs = R, !.es = {x \in g.es : x[2] \in R}]
(* -------------------------------------------------------------- changes *)
AddV(s, i, v) == [s EXCEPT ![i].vs = @ \cup {v}]
AddE(s, i, x) == [s EXCEPT ![i].es = @ \cup {x}]
DelE(s, i, n) == [s EXCEPT ![i].es = {x \in @ : x[1] # n}]
DelV(s, i, v) == [s EXCEPT ![i].vs = @ \ {v}, ![i].es = {x \in @ : x[2] # v /\ x[3] # v}]
Clear(s, i) == [s EXCEPT ![i].vs = {}, ![i].es = {}]
Reverse(s, i) == [s EXCEPT ![i].back = ~@]
Put(s, i, x) == [s EXCEPT ![i] = x]
\* i becomes a copy of what j shows from the vertex u on; vm and em map old names to new ones
CopyOf(g, u, vm, em) == LET p == Part(g, u) IN
  [Graph(g.dir) EXCEPT !.vs = {vm[v] : v \in p.vs}, !.es = {<<em[x[1]], vm[x[2]], vm[x[3]]>> : x \in p.es}]
\* what one of two views on a graph shows, or both do
Join(s, i, j) == [s EXCEPT ![i].hv = @ \cap s[j].hv, ![i].he = @ \cap s[j].he]
Meet(s, i, j) == [s EXCEPT ![i].hv = @ \cup s[j].hv, ![i].he = @ \cup s[j].he]
(* -------------------------------------------------------------- answers *)
\* r lists what is reachable from u by increasing number of steps
RECURSIVE Level(_, _, _, _)
Level(mv, front, seen, r) ==
  LET n == Cardinality(front) IN
  IF n = 0 THEN r = <<>>
  ELSE /\ Len(r) >= n
       /\ {r[k] : k \in 1..n} = front
       /\ LET next == {m[2] : m \in {m \in mv : m[1] \in front}} \ (seen \cup front)
          IN Level(mv, next, seen \cup front, SubSeq(r, n + 1, Len(r)))
Levels(g, u, r) == Level(Moves(g), {u}, {}, r)
\* d[v] = -1: no path. For positive weights, d is exact when no edge improves it and each distance has an edge that explains it
Tight(g, u, w, d) ==
  LET arcs == {<<x[2], x[3], w[x[1]]>> : x \in g.es} \cup (IF g.dir THEN {} ELSE {<<x[3], x[2], w[x[1]]>> : x \in g.es}) IN
  /\ d[u] = 0
  /\ \A a \in arcs : d[a[1]] >= 0 => d[a[2]] >= 0 /\ d[a[2]] <= d[a[1]] + a[3]
  /\ \A v \in g.vs \ {u} : d[v] >= 0 => \E a \in arcs : a[2] = v /\ d[a[1]] >= 0 /\ d[v] = d[a[1]] + a[3]
\* the vertex where the walk along the named edges ends, -1 if it breaks
RECURSIVE Walk(_, _, _)
Walk(g, u, r) ==
  IF r = <<>> THEN u
  ELSE LET X == {x \in g.es : x[1] = Head(r)} IN
       IF X = {} THEN -1
       ELSE LET x == CHOOSE x \in X : TRUE IN
            IF x[2] = u THEN Walk(g, x[3], Tail(r)) ELSE IF ~g.dir /\ x[3] = u THEN Walk(g, x[2], Tail(r)) ELSE -1
RECURSIVE Cost(_, _)
Cost(w, r) == IF r = <<>> THEN 0 ELSE w[Head(r)] + Cost(w, Tail(r))
\* the targets of the cutting edges that are met, and the sinks that are reached without one
CutOf(g, u, C) == LET R == Reach([g EXCEPT !.es = {x \in @ : x[1] \notin C}], u) IN
  {x[3] : x \in {x \in g.es : x[1] \in C /\ x[2] \in R}} \cup {v \in R : \A x \in g.es : x[2] # v}
Outs(g, v) == {x[1] : x \in {x \in g.es : x[2] = v \/ (~g.dir /\ x[3] = v)}}
Ins(g, v) == {x[1] : x \in {x \in g.es : x[3] = v \/ (~g.dir /\ x[2] = v)}}
=============================================================================
