------------------------------ MODULE AtlasModel ------------------------------
(***************************************************************************)
(* Every history of one graph, a view on it and a slot for copies, at      *)
(* small constants: the answers defined in Atlas agree with definitions    *)
(* that enumerate walks, and the slots stay apart.                         *)
(***************************************************************************)
EXTENDS Atlas, TLC
CONSTANTS V, MaxE, Steps, Dir
VARIABLES s, k, id
vars == <<s, k, id>>
Init == /\ s = <<Graph(Dir), View(1, {}, {}), Graph(Dir)>> /\ k = 0 /\ id = 0
Shift(g) == [v \in g.vs |-> v + 10]
Next ==
  /\ k < Steps /\ k' = k + 1
  /\ \/ \E v \in V \ s[1].vs : s' = AddV(s, 1, v) /\ id' = id
     \/ \E u, v \in s[1].vs : id < MaxE /\ id' = id + 1 /\ s' = AddE(s, 1, <<id + 1, u, v>>)
     \/ \E x \in s[1].es : s' = DelE(s, 1, x[1]) /\ id' = id
     \/ \E v \in s[1].vs : s' = DelV(s, 1, v) /\ id' = id
     \/ s' = Reverse(s, 1) /\ id' = id
     \/ \E v \in V : s' = Put(s, 2, View(1, {v}, {})) /\ id' = id
     \/ \E n \in 1..id : s' = Put(s, 2, View(1, {}, {n})) /\ id' = id
     \/ \E v \in V, n \in 1..id : LET b == Put(s, 3, View(1, {v}, {n})) IN    \* with another view, for the moment
          \E t \in {Join(b, 2, 3), Meet(b, 2, 3)} : s' = Put(t, 3, s[3]) /\ id' = id
     \/ \E j \in 1..2 : \E u \in Shown(s, j).vs : LET g == Shown(s, j) IN
          s' = Put(s, 3, CopyOf(g, u, Shift(g), [n \in 1..MaxE |-> n])) /\ id' = id
Spec == Init /\ [][Next]_vars
G == {Shown(s, i) : i \in 1..3}
W == [n \in 1..MaxE |-> IF n = 1 THEN 3 ELSE 1]
ShapeOK == \A g \in G : \A x, y \in g.es : x[2] \in g.vs /\ x[3] \in g.vs /\ (x[1] = y[1] => x = y)
ViewOK == LET a == Shown(s, 1)  b == Shown(s, 2) IN b.vs \subseteq a.vs /\ b.es \subseteq a.es
BackOK == \A i \in {1} : LET g == Shown(s, i)  h == Shown(Reverse(s, i), i) IN
            \A u, v \in g.vs : (v \in Reach(g, u)) <=> (u \in Reach(h, v))
\* walks of at most n edges, as sequences of names
Names(g) == {x[1] : x \in g.es}
Walks(g, n) == UNION {[1..m -> Names(g)] : m \in 0..n}
Least(X) == CHOOSE x \in X : \A y \in X : x <= y
Dist(g, u) == [v \in g.vs |-> LET c == {Cost(W, r) : r \in {r \in Walks(g, Cardinality(g.vs) - 1) : Walk(g, u, r) = v}} IN IF c = {} THEN -1 ELSE Least(c)]
DistOK == \A g \in G : \A u \in g.vs : LET d == Dist(g, u) IN
            /\ Tight(g, u, W, d)
            /\ \A v \in g.vs : \A c \in -1..5 : c # d[v] => ~Tight(g, u, W, [d EXCEPT ![v] = c])
            /\ {v \in g.vs : d[v] >= 0} = Reach(g, u)
Perms(X) == {r \in [1..Cardinality(X) -> X] : \A a, b \in DOMAIN r : a # b => r[a] # r[b]}
Hops(g, u, v) == Least({Len(r) : r \in {r \in Walks(g, Cardinality(g.vs) - 1) : Walk(g, u, r) = v}})
LevelOK == \A g \in G : \A u \in g.vs : \A r \in Perms(Reach(g, u)) :
             Levels(g, u, r) <=> \A a, b \in DOMAIN r : a < b => Hops(g, u, r[a]) <= Hops(g, u, r[b])
OrderOK == \A g \in G : g.dir => (Acyclic(g.vs, Moves(g)) <=> \E r \in Perms(g.vs) : TopoSorted(g.vs, Moves(g), r))
\* a walk from u meets a vertex of the cut at the latest when it cannot go on
CutOK == \A g \in G : g.dir => \A u \in g.vs : \A C \in SUBSET Names(g) :
           LET X == CutOf(g, u, C) IN
           /\ X \subseteq Reach(g, u)
           /\ \A r \in Walks(g, 2) : LET z == Walk(g, u, r) IN
                z \in g.vs /\ Outs(g, z) = {} => \E m \in 0..Len(r) : Walk(g, u, SubSeq(r, 1, m)) \in X
\* combining views: by what each of them shows
JoinOK == \A v \in V, n \in 1..id : LET b == Put(s, 3, View(1, {v}, {n}))  g == Shown(b, 2)  h == Shown(b, 3) IN
            /\ Shown(Meet(b, 2, 3), 2) = [g EXCEPT !.vs = g.vs \cap h.vs, !.es = g.es \cap h.es]
            /\ Shown(Join(b, 2, 3), 2).vs = g.vs \cup h.vs
            /\ g.es \cup h.es \subseteq Shown(Join(b, 2, 3), 2).es
\* a change to one slot shows in that slot and in the views on it only
Apart == [][\A i \in 1..3 : Shown(s, i) # Shown(s', i) => (s[i] # s'[i] \/ (s[i].base # 0 /\ s[s[i].base] # s'[s[i].base]))]_vars
=============================================================================
