----------------------------- MODULE RevuzTrace -----------------------------
(* Executions of revuz_minimize, seen through its visitor, and answers of revuz_height.
   State: [m: the input, g: the automaton now, on: the merge under way or 0, moved, gone]. *)
EXTENDS Revuz, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
Auto(x) == [out |-> x.out, ini |-> x.ini, fin |-> S(x.fin)]
Start(x) == [m |-> Auto(x), lab |-> x.lab, g |-> OfAutomaton(Auto(x), x.lab), on |-> <<>>, moved |-> {}, gone |-> FALSE]
MaxHeight(m) == CHOOSE h \in {HeightOf(m, q) : q \in States(m)} : \A q \in States(m) : HeightOf(m, q) <= h
Bad(s, e) ==
  CASE e.op = "height" -> Fail("height-of-a-state", Len(e.of) = Len(s.m.out) /\ \A q \in States(s.m) : e.of[q] = HeightOf(s.m, q))
                          \cup Fail("largest-height", e.r = MaxHeight(s.m))
    [] e.op = "merging" -> Fail("merge-during-a-merge", s.on = <<>>) \cup Fail("merge-of-different-states", CanMerge(s.g, e.p, e.q))
    [] e.op = "move" -> Fail("move-outside-a-merge", s.on # <<>> /\ ~s.gone)
                        \cup Fail("move", s.on # <<>> /\ e.old \in Into(s.g, s.on[2]) \ s.moved /\ e.new = <<e.old[1], e.old[2], s.on[1]>>)
    [] e.op = "remove" -> Fail("removed-state", s.on # <<>> /\ e.q = s.on[2] /\ ~s.gone)
                          \cup Fail("transition-not-moved", s.on = <<>> \/ s.moved = Into(s.g, s.on[2]))
    [] e.op = "merged" -> Fail("merged-states", s.on = <<e.p, e.q>> /\ s.gone)
    [] e.op = "end" ->
         LET r == Auto(e.m)  id(i) == e.at[i]
             T2 == {<<id(t[1]), t[2], id(t[3])>> : t \in Trans(r)} IN
         IF ~DetWF(r) \/ r.ini = Bottom THEN {"not-a-deterministic-automaton"}
         ELSE Fail("merge-not-finished", s.on = <<>>)
              \cup Fail("unannounced-change", /\ S(e.at) = s.g.V /\ T2 = s.g.T
                                               /\ {id(q) : q \in r.fin} = s.g.fin /\ id(r.ini) = s.g.ini)
              \cup Fail("incoming-transitions", {<<x[1], x[2], x[3]>> : x \in S(e.in)} = T2 /\ Len(e.in) = Cardinality(T2))
              \cup Fail("language-changed", SameLang(s.m, r))
              \cup Fail("two-states-alike", NothingToMerge(s.g))
              \cup Fail("number-of-states", Len(r.out) = Cardinality(Blocks(s.m, LabKey(s.m, s.lab))))
              \cup Fail("returned-height", e.r = MaxHeight(s.m))
    [] e.op = "quiet" ->   \* the same input once more, without a visitor
         LET r == Auto(e.m) IN
         IF ~DetWF(r) \/ r.ini = Bottom THEN {"not-a-deterministic-automaton"}
         ELSE Fail("language-changed", SameLang(s.m, r)) \cup Fail("number-of-states", Len(r.out) = Cardinality(Blocks(s.m, LabKey(s.m, s.lab))))
              \cup Fail("returned-height", e.r = MaxHeight(s.m))
    [] OTHER -> {"unknown-op"}
Step(s, e) ==
  CASE e.op = "merging" -> [s EXCEPT !.on = <<e.p, e.q>>, !.moved = {}, !.gone = FALSE]
    [] e.op = "move" -> [s EXCEPT !.moved = @ \cup {e.old}]
    [] e.op = "remove" -> [s EXCEPT !.gone = TRUE]
    [] e.op = "merged" -> [s EXCEPT !.on = <<>>, !.g = Merged(@, e.p, e.q)]
    [] OTHER -> s
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
