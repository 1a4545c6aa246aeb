----------------------------- MODULE CopyModel ------------------------------
(* Copying edge by edge, in any order, ends in a copy of the relevant reachable part;
   cutting from a source separates it from every sink. *)
EXTENDS Copy, TLC
CONSTANTS N, MaxE, Dir
VARIABLES x, m, em, nxt
vars == <<x, m, em, nxt>>
V == 0..(N-1)
Pairs == {<<u, v>> : u \in V, v \in V}
Seqs == UNION {[1..k -> {p \in Pairs : Dir \/ p[1] <= p[2]}] : k \in 0..MaxE}
Ext(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
Init == \E es \in Seqs : \E vr \in SUBSET V : \E er \in SUBSET (1..Len(es)) :
          /\ 0 \in vr
          /\ x = [dir |-> Dir, vs |-> V, es |-> es, s |-> 0, vrel |-> vr, erel |-> er]
          /\ m = (0 :> 0) /\ em = <<>> /\ nxt = 1
CopyEdge(i, a, b) ==
  /\ i \in x.erel \ DOMAIN em /\ a \in DOMAIN m /\ b \in x.vrel
  /\ LET m2 == IF b \in DOMAIN m THEN m ELSE Ext(m, b, nxt) IN
     m' = m2 /\ em' = Ext(em, i, <<m2[a], m2[b], i>>)
  /\ nxt' = IF b \in DOMAIN m THEN nxt ELSE nxt + 1
  /\ UNCHANGED x
Next == \E i \in EdgeIds(x) : CopyEdge(i, x.es[i][1], x.es[i][2]) \/ (~Dir /\ CopyEdge(i, x.es[i][2], x.es[i][1]))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == ~ENABLED Next
CopyOK == Done => IsCopy(x, m, em, 0..(nxt-1), {em[i] : i \in DOMAIN em})
Ends == <>Done
\* ---- vertex cuts (of the edges erel, vrel unused)
NoWay(ids, U, from, to) == to \notin PartFix(x, {i \in ids : x.es[i][1] \notin U /\ x.es[i][2] \notin U}, {from})
Sinks == {u \in V : \A i \in EdgeIds(x) : x.es[i][1] # u}
CutOK == Dir /\ em = <<>> =>
  LET C == VertexCut(x, x.erel) IN
  /\ C \subseteq V
  /\ x.erel = {} => C = PartFix(x, EdgeIds(x), {0}) \cap Sinks
  /\ 0 \notin C => \A t \in Sinks \ C : NoWay(EdgeIds(x), C, 0, t)
=============================================================================
