---------------------------- MODULE ParallelTrace ---------------------------
(* Visitor events of parallel_breadth_first_search. *)
EXTENDS Parallel, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
M(x) == [out |-> x.out, ini |-> x.ini, fin |-> S(x.fin)]
Start(x) == PStart(M(x.m1), M(x.m2), S(x.srcs), S(x.refused))
EvKinds == {"start", "exam", "sym", "edge", "tree", "gray", "black", "disc", "fin"}
Bad(s, e) ==
  CASE e.op \in EvKinds -> (IF ~PAllowed(s, e.op, e.x, e.a, e.e1, e.e2) THEN {"not-allowed:" \o e.op}
                             ELSE Fail("color-seen:" \o e.op, e.c = -1 \/ e.c = SeenColour(s, e.op, e.x))) \cup Fail("automata-handed-over", e.ok = 1)
    [] e.op = "end" -> Fail("ends-too-early", PAllowed(s, "end", <<>>, 0, <<>>, <<>>))
                       \cup Fail("final-colors", e.col = <<>> \/ {<<c[1], c[2]>> : c \in S(e.col)} = {<<x, s.col[x]>> : x \in DOMAIN s.col})
    [] e.op = "quiet" -> Fail("colors-without-visitor", {<<c[1], c[2]>> : c \in S(e.col)} = {<<x, s.col[x]>> : x \in DOMAIN s.col})
    [] e.op = "after" -> Fail("operand-changed", e.same = 1)
    [] OTHER -> {"unknown-op"}
Step(s, e) == CASE e.op \in EvKinds -> PApply(s, e.op, e.x, e.a, e.e1, e.e2)
                [] e.op = "end" -> PApply(s, "end", <<>>, 0, <<>>, <<>>)
                [] OTHER -> s
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
