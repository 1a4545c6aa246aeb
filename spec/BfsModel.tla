------------------------------ MODULE BfsModel ------------------------------
(* Every run of the protocol on every small graph, every set of sources. *)
EXTENDS Bfs, TLC
CONSTANTS N, MaxE, Loops, Single, Pre
VARIABLES s, src0
V == 0..(N-1)
Arcs == {<<u, v, 0>> : u \in V, v \in V} \ (IF Loops THEN {} ELSE {<<u, u, 0>> : u \in V})
Init == \E acc \in {x \in SUBSET Arcs : Cardinality(x) <= MaxE} :
        \E q \in IF Single THEN {{v} : v \in V} ELSE SUBSET V :
        \E c \in IF Pre THEN {x \in SUBSET (V \ q) : Cardinality(x) <= 1} ELSE {{}}, b \in BOOLEAN :
          /\ b \/ c # {}
          /\ src0 = q /\ s = BfsStartColoured(V, acc, IF Single THEN V ELSE {}, q, IF b THEN c ELSE {}, IF b THEN {} ELSE c)
Events == {<<k, v>> : k \in {"init", "disc", "exam", "fin"}, v \in V}
          \cup {<<k, e>> : k \in {"edge", "tree", "nontree", "gray", "black"}, e \in s.acc} \cup {<<"end", <<>>>>}
Next == \E e \in Events : Allowed(s, e[1], e[2]) /\ s' = Apply(s, e[1], e[2]) /\ UNCHANGED src0
Spec == Init /\ [][Next]_<<s, src0>> /\ WF_<<s, src0>>(Next)
\* ---- theorems
NotStuck == s.done \/ \E e \in Events : Allowed(s, e[1], e[2])
Terminates == <>s.done
\* the vertices coloured beforehand are not gone through
Free == {e \in s.acc : e[1] \notin s.held /\ e[2] \notin s.held}
Reached == {v \in V : Layer(Free, src0, v) >= 0}
AtEnd == s.done => /\ {v \in V \ s.held : s.col[v] = 2} = Reached
                   /\ {v \in V : s.col[v] = 0} = V \ (Reached \cup s.held)
                   /\ Cardinality(s.tree) = Cardinality(Reached) - Cardinality(src0)
LevelOK == \A v \in V \ s.held : s.col[v] # 0 => s.lvl[v] = Layer(Free, src0, v)
TreeOK == \A e \in s.tree : s.col[e[2]] # 0 => s.lvl[e[2]] = s.lvl[e[1]] + 1
OneParent == \A e, f \in s.tree : e[2] = f[2] => e = f
Monotone == \A v, w \in V \ s.held : s.col[v] = 2 /\ s.col[w] # 2 /\ s.col[w] # 0 => s.lvl[v] <= s.lvl[w]
=============================================================================
