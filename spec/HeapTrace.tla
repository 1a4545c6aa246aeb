------------------------------ MODULE HeapTrace -----------------------------
EXTENDS Heap, Integers, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
B(b) == IF b THEN 1 ELSE 0
Start(x) == Sorted(x.q)
Els(s) == [i \in 1..Len(s.d) |-> s.d[i][1]]
Bad(q, e) ==
  CASE e.op \in {"push", "rekey"} -> {}
    [] e.op = "pop" -> Fail("pop-order", q.d # <<>> /\ e.r = Head(q.d)[1])
    [] e.op = "drain" -> Fail("drain-order", e.r = Els(q))
    [] e.op = "len" -> Fail("len", e.r = Len(q.d))
    [] e.op = "bool" -> Fail("bool", e.r = B(q.d # <<>>))
    [] e.op = "iter" -> Fail("iteration-order", e.r = Els(q))
    \* a, b: ranks of two objects in a total preorder
    [] e.op = "cmp" -> Fail("comparable", e.r = <<B(e.a < e.b), B(e.a <= e.b), B(e.a = e.b), B(e.a # e.b), B(e.a > e.b), B(e.a >= e.b)>>)
    [] OTHER -> {"unknown-op"}
Step(q, e) ==
  CASE e.op = "push" -> SPush(q, e.el, e.k)
    [] e.op = "pop" -> SPop(q)
    [] e.op = "drain" -> [q EXCEPT !.d = <<>>]
    [] e.op = "rekey" -> SRekey(q, e.el, e.k)
    [] OTHER -> q
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
