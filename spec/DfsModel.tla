------------------------------ MODULE DfsModel ------------------------------
(* Every run of the protocol on every small graph, with every list of sources and pre-coloured vertices. *)
EXTENDS Dfs, TLC
CONSTANTS N, MaxE, Loops, Pre
VARIABLES s, black0, gray0
V == 0..(N-1)
Arcs == {<<u, v, 0>> : u \in V, v \in V} \ (IF Loops THEN {} ELSE {<<u, u, 0>> : u \in V})
Lists == {q \in UNION {[1..k -> V] : k \in 0..2} : \A i, j \in DOMAIN q : i # j => q[i] # q[j]} \cup {[i \in 1..N |-> i - 1]}
Init == \E acc \in {x \in SUBSET Arcs : Cardinality(x) <= MaxE}, q \in Lists, c \in IF Pre THEN {x \in SUBSET V : Cardinality(x) <= 1} ELSE {{}}, b \in BOOLEAN :
          /\ b \/ c # {}
          /\ black0 = (IF b THEN c ELSE {}) /\ gray0 = (IF b THEN {} ELSE c)
          /\ s = DfsStartColoured(V, acc, q, TRUE, black0, gray0)
col0 == black0 \cup gray0
Events == {<<k, v>> : k \in {"start", "disc", "fin"}, v \in V}
          \cup {<<k, e>> : k \in {"edge", "tree", "back", "foc"}, e \in s.acc} \cup {<<"end", <<>>>>}
Next == \E e \in Events : Allowed(s, e[1], e[2]) /\ s' = Apply(s, e[1], e[2]) /\ UNCHANGED <<black0, gray0>>
Spec == Init /\ [][Next]_<<s, black0, gray0>> /\ WF_<<s, black0, gray0>>(Next)
\* ---- theorems
NotStuck == s.done \/ \E e \in Events : Allowed(s, e[1], e[2])
Terminates == <>s.done
Srcs == {s.src[i] : i \in 1..Len(s.src)}
\* reachable from the sources through vertices not coloured beforehand
Free == {e \in s.acc : e[1] \notin col0 /\ e[2] \notin col0}
AtEnd == s.done => /\ {v \in V : s.col[v] = 2} = black0 \cup Closure(Free, Srcs \ col0)
                   /\ {v \in V : s.col[v] = 1} = gray0
\* the grey vertices are exactly those on the stack, each a tree child of the one below
StackOK == /\ {v \in V : s.col[v] = 1} \ gray0 = {s.stk[i][1] : i \in 1..Len(s.stk)}
           /\ \A i \in 1..(Len(s.stk)-1) : \E e \in s.tree : e[1] = s.stk[i][1] /\ e[2] = s.stk[i+1][1]
OneParent == \A e, f \in s.tree : e[2] = f[2] => e = f
\* a black vertex has only seen successors, and a finished search meets a back edge exactly when there is a cycle
BlackOK == \A e \in s.acc : s.col[e[1]] = 2 /\ e[1] \notin col0 => s.col[e[2]] # 0
CycleOK == s.done /\ col0 = {} =>
             LET D == Closure(s.acc, Srcs) IN
             (s.back # {}) <=> \E e \in s.acc : e[1] \in D /\ e[1] \in Closure(s.acc, {e[2]})
BackOK == \A e \in s.back : e[2] \in gray0 \/ e[1] \in Closure(s.tree, {e[2]})
=============================================================================
