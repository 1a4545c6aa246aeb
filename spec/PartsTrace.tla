------------------------------- MODULE PartsTrace -------------------------------
(* Histories of combined visitors, property maps and operators.
   State: [nodes, types, dicts, maps]; the numbers of the code are given as
   integers, infinity as INF. *)
EXTENDS Parts, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
Start(x) == x
\* direct kids of a combined visitor whose type is t
OfType(s, v, t) == SelectSeq(s.nodes[v][2], LAMBDA w : s.types[w] = t)
\* the log of a run: entry i of the events goes through every leaf
LogOf(ls, evs) == [i \in 1..(Len(ls) * Len(evs)) |-> <<ls[1 + ((i - 1) % Len(ls))], evs[1 + ((i - 1) \div Len(ls))]>>]
Bad(s, e) ==
  CASE e.op = "call" ->
         LET seen == Sees(s.nodes, e.v, S(e.failing)) IN
         Fail("forwarded-to-each-in-order", [i \in 1..Len(e.log) |-> e.log[i][1]] = seen)
         \cup Fail("forwarded-as-called", \A i \in 1..Len(e.log) : e.log[i][2] = e.call)
         \cup Fail("failure", (e.failed = 1) <=> (\E i \in 1..Len(seen) : seen[i] \in S(e.failing)))
    [] e.op = "run" ->
         LET ls == Leaves(s.nodes, e.v) IN
         Fail("same-result", e.same = 1)
         \cup Fail("each-as-if-alone", ls = <<>> \/ e.log = LogOf(ls, e.alone))
    [] e.op = "get" -> LET c == OfType(s, e.v, e.t) IN Fail("found-by-type", e.r = IF c = <<>> THEN 0 ELSE c[1])
    [] e.op = "keys" -> Fail("types", S(e.r) = {s.types[w] : w \in S(s.nodes[e.v][2])})
    [] e.op \in {"append", "remove", "write", "direct"} -> {}
    [] e.op = "read" -> Fail("value", e.r = Value(s.dicts, s.maps[e.m], e.k))
    [] e.op = "refused" -> Fail("read-only-map-written", e.write = 0 \/ e.r = 1) \cup Fail("deleted", e.write = 1 \/ e.r = 1)
    [] e.op = "content" -> Fail("content", {s.dicts[e.d].f[i][1] : i \in 1..Len(s.dicts[e.d].f)} \subseteq S(e.ks)
                                        /\ \A i \in 1..Len(e.ks) : e.vs[i] = Last(s.dicts[e.d].f, e.ks[i], s.dicts[e.d].d))
    [] e.op = "apply" -> Fail("absorbing", (e.x = e.z \/ e.y = e.z) => e.r = e.z) \cup Fail("operation", e.r = Closed(e.kind, e.z, e.x, e.y))
    [] e.op = "compare" -> Fail("less", (e.lt = 1) <=> e.x < e.y) \cup Fail("greater", (e.gt = 1) <=> e.x > e.y)
    [] OTHER -> {"unknown-op"}
Step(s, e) ==
  CASE e.op = "append" -> [s EXCEPT !.nodes[e.v][2] = Append(@, e.w)]
    [] e.op = "remove" -> [s EXCEPT !.nodes[e.v][2] = SubSeq(@, 1, e.i - 1) \o SubSeq(@, e.i + 1, Len(@))]
    [] e.op = "write" -> [s EXCEPT !.dicts = Written(@, s.maps[e.m][2], e.k, e.x)]
    [] e.op = "direct" -> [s EXCEPT !.dicts = Written(@, e.d, e.k, e.x)]
    [] OTHER -> s
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
