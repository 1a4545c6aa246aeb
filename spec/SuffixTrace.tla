----------------------------- MODULE SuffixTrace -----------------------------
(* Answers of slices, factors, make_suffix_trie and trie_matching.
   State: the trie built so far (several words may be put in one trie). *)
EXTENDS Trie, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
Auto(x) == [out |-> x.out, ini |-> x.ini, fin |-> S(x.fin)]
Start(x) == [nodes |-> {<<>>}, words |-> {<<>>}]
Bound(e) == IF e.bound = -1 THEN Len(e.w) ELSE e.bound
Bad(t, e) ==
  CASE e.op = "slices" -> LET b == IF e.bound = -1 THEN e.n ELSE e.bound
                              P == {<<0, 0>>} \cup {x \in (0..e.n) \X (0..e.n) : x[1] < x[2] /\ x[2] - x[1] <= b} IN
         Fail("slices", S(e.r) = P /\ Len(e.r) = Cardinality(P))
    [] e.op = "factors" -> LET f == Factors(e.w, Bound(e)) IN
         Fail("factors", S(e.r) = f)
         \cup Fail("factors-each-occurrence-once",
                   \A v \in f : Cardinality({i \in 1..Len(e.r) : e.r[i] = v}) = IF v = <<>> THEN 1 ELSE Cardinality(Occurrences(e.w, v)))
    [] e.op = "trie" -> LET m == Auto(e.m)  f == Factors(e.w, Bound(e)) \cup t.nodes IN
         IF ~DetWF(m) THEN {"not-a-deterministic-automaton"}
         ELSE Fail("not-the-trie-of-the-factors", IsTree(m, [nodes |-> f, words |-> f]))
              \cup Fail("given-trie", e.given = 1)
    [] e.op = "accepts" -> Fail("accepts", (e.r = 1) <=> e.w \in t.words)
    [] e.op = "matching" -> LET m1 == Auto(e.m1)  m2 == Auto(e.m2) IN
         Fail("counters", e.r = Counters(m1, m2)) \cup Fail("input-changed", e.same = 1)
    [] e.op = "words" -> LET A == S(e.w1)  B == S(e.w2) IN
         Fail("counted-words", <<e.r[2], e.r[3], e.r[4]>> = <<Cardinality(A \ B), Cardinality(B \ A), Cardinality(A \cap B)>>)
    [] OTHER -> {"unknown-op"}
Step(t, e) == IF e.op = "trie" THEN LET f == Factors(e.w, Bound(e)) \cup t.nodes IN [nodes |-> f, words |-> f] ELSE t
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
