----------------------------- MODULE TrieTrace -----------------------------
(* Histories of several tries, and what digital sequences show.
   State: a trie for each slot. *)
EXTENDS Trie, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
Auto(x) == [out |-> x.out, ini |-> x.ini, fin |-> S(x.fin)]
Start(x) == [i \in 1..x.n |-> EmptyTrie]
SeqAuto(w) == [out |-> [q \in 1..Len(w) + 1 |-> IF q <= Len(w) THEN <<<<w[q], q + 1>>>> ELSE <<>>], ini |-> 1, fin |-> {Len(w) + 1}]
RECURSIVE BestEffort(_, _, _)
BestEffort(m, q, w) == IF w = <<>> \/ Delta(m, q, Head(w)) = Bottom THEN <<q, 0>>
                       ELSE LET r == BestEffort(m, Delta(m, q, Head(w)), Tail(w)) IN <<r[1], r[2] + 1>>
Bad(s, e) ==
  CASE e.op = "insert" -> {}
    [] e.op = "merge" -> {}
    [] e.op = "tree" -> LET m == Auto(e.m)  t == s[e.i] IN
         IF ~DetWF(m) THEN {"not-a-deterministic-automaton"}
         ELSE Fail("not-the-tree-of-the-inserted-words", IsTree(m, t))
              \cup Fail("number-of-nodes", e.nv = Cardinality(t.nodes)) \cup Fail("number-of-edges", e.ne = Cardinality(t.nodes) - 1)
    [] e.op = "void" -> Fail("nothing-yet", e.nv = 0 /\ e.ne = 0)
    [] e.op = "accepts" -> Fail("accepts", (e.r = 1) <=> e.w \in s[e.i].words)
    [] e.op = "sequence" -> LET m == SeqAuto(e.w)  r == Auto(e.m) IN
         Fail("sequence-transitions", r = m)
         \cup Fail("sequence-incoming", S(e.in) = Trans(m) /\ Len(e.in) = Cardinality(Trans(m)))
         \cup Fail("sequence-edges", S(e.all) = Trans(m) /\ Len(e.all) = Cardinality(Trans(m)))
         \cup Fail("sequence-sizes", e.nv = Len(e.w) + 1 /\ e.ne = Len(e.w))
         \cup Fail("sequence-alphabet", S(e.alphabet) = S(e.w))
         \cup Fail("sequence-finals", S(e.finals) = {Len(e.w) + 1})
         \cup Fail("sequence-complete", (e.complete = 1) <=> IsComplete(m, Syms(m)))
         \cup Fail("sequence-deltas", \A i \in 1..Len(e.deltas) : e.deltas[i][3] = Delta(m, e.deltas[i][1], e.deltas[i][2]))
         \cup Fail("sequence-symbols", \A q \in States(m) : S(e.sigma[q]) = OutSyms(m, q))
         \cup Fail("sequence-edge", \A i \in 1..Len(e.edge) : (e.edge[i][4] = 1) <=> <<e.edge[i][1], e.edge[i][2], e.edge[i][3]>> \in Trans(m))
         \cup Fail("sequence-words", \A i \in 1..Len(e.runs) : LET x == e.runs[i] IN
              x.to = Run(m, x.from, x.w) /\ (x.acc = 1 <=> Accepts(m, x.w)) /\ x.best = BestEffort(m, 1, x.w))
    [] e.op = "refused" -> Fail("sequence-modified", e.r = 1)
    [] e.op = "reached" -> LET m == Auto(e.m) IN Fail("reached-state", DetWF(m) /\ m.ini # Bottom /\ Run(m, m.ini, e.w) = e.q)
    [] OTHER -> {"unknown-op"}
Step(s, e) ==
  CASE e.op = "insert" -> [s EXCEPT ![e.i] = WithWord(@, e.w)]
    [] e.op = "merge" -> [s EXCEPT ![e.i] = WithTrie(@, s[e.j])]
    [] OTHER -> s
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
