------------------------------ MODULE Parallel ------------------------------
(***************************************************************************)
(* Protocol of the parallel breadth-first traversal of two deterministic   *)
(* automata, with the three algorithms that ride on it: union,             *)
(* intersection and inclusion.                                             *)
(* State: col (0 undiscovered is absent, 1 discovered, 2 finished) and lvl *)
(* as functions on discovered pairs, pend the pairs waiting for            *)
(* examination, started, cur the pair under examination (<<>> if none),    *)
(* todo its symbols left, ph the phase: "idle", "sym", "edge", "kind",     *)
(* "disc", "done".                                                         *)
(***************************************************************************)
EXTENDS Lang
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
PStart(m1, m2, srcs, refused) ==
  [m1 |-> m1, m2 |-> m2, srcs |-> srcs, refused |-> refused, todoSrc |-> srcs, col |-> <<>>, lvl |-> <<>>, pend |-> {},
   cur |-> <<>>, todo |-> {}, a |-> 0, ph |-> "start"]
PairSyms(s, x) == OutSyms(s.m1, x[1]) \cup OutSyms(s.m2, x[2])
Move(s, x, a) == <<Delta(s.m1, x[1], a), Delta(s.m2, x[2], a)>>
\* the reported move of one automaton: none from Bottom, towards Bottom if missing
MoveEdge(m, q, a) == IF q = Bottom THEN <<>> ELSE <<q, a, Delta(m, q, a)>>
Tgt(s) == Move(s, s.cur, s.a)
Lowest(s, x) == \A y \in s.pend : s.lvl[x] <= s.lvl[y]
\* an event is <<kind, pair, symbol, move1, move2>>
PAllowed(s, k, x, a, e1, e2) ==
  CASE k = "start" -> s.ph = "start" /\ x \in s.todoSrc
    [] k = "exam" -> (s.ph = "idle" \/ (s.ph = "start" /\ s.todoSrc = {})) /\ x \in s.pend /\ Lowest(s, x)
    [] k = "sym"  -> s.ph = "sym" /\ x = s.cur /\ a \in s.todo
    [] k = "edge" -> s.ph = "edge" /\ a = s.a /\ e1 = MoveEdge(s.m1, s.cur[1], a) /\ e2 = MoveEdge(s.m2, s.cur[2], a)
    [] k \in {"tree", "gray", "black"} ->
         /\ s.ph = "kind" /\ a = s.a /\ e1 = MoveEdge(s.m1, s.cur[1], a) /\ e2 = MoveEdge(s.m2, s.cur[2], a)
         /\ k = IF Tgt(s) \notin DOMAIN s.col THEN "tree" ELSE IF s.col[Tgt(s)] = 1 THEN "gray" ELSE "black"
    [] k = "disc" -> s.ph = "disc" /\ x = Tgt(s)
    [] k = "fin"  -> s.ph = "sym" /\ s.todo = {} /\ x = s.cur
    [] k = "end"  -> (s.ph = "idle" \/ (s.ph = "start" /\ s.todoSrc = {})) /\ s.pend = {}
    [] OTHER -> FALSE
PApply(s, k, x, a, e1, e2) ==
  CASE k = "start" -> [s EXCEPT !.todoSrc = @ \ {x}, !.pend = @ \cup {x}, !.col = Put(@, x, 1), !.lvl = Put(@, x, 0)]
    [] k = "exam" -> [s EXCEPT !.cur = x, !.pend = @ \ {x}, !.todo = PairSyms(s, x), !.ph = "sym"]
    [] k = "sym"  -> [s EXCEPT !.a = a, !.todo = @ \ {a}, !.ph = "edge"]
    [] k = "edge" -> [s EXCEPT !.ph = "kind"]
    [] k = "tree" -> [s EXCEPT !.ph = "disc"]
    [] k = "disc" -> [s EXCEPT !.ph = "sym", !.col = Put(@, x, 1), !.lvl = Put(@, x, s.lvl[s.cur] + 1),
                               !.pend = IF <<s.cur[1], s.cur[2], s.a>> \in s.refused THEN @ ELSE @ \cup {x}]
    [] k \in {"gray", "black"} -> [s EXCEPT !.ph = "sym"]
    [] k = "fin"  -> [s EXCEPT !.ph = "idle", !.col = Put(@, x, 2), !.cur = <<>>]
    [] k = "end"  -> [s EXCEPT !.ph = "done"]
\* the colour that a visitor sees on the pair of the event, or on the target of its edges
Colour(s, x) == IF x \in DOMAIN s.col THEN s.col[x] ELSE 0
SeenColour(s, k, x) == CASE k \in {"exam", "disc", "sym"} -> 1 [] k = "fin" -> 2 [] OTHER -> Colour(s, Tgt(s))
=============================================================================
