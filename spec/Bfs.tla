-------------------------------- MODULE Bfs ---------------------------------
(***************************************************************************)
(* Breadth-first search as a protocol of events.  The state holds colours, *)
(* levels, the vertex under examination and the event owed next.           *)
(* Allowed(s, ev) says which events may happen, Apply(s, ev) the next      *)
(* state.  The order of sources and of out-edges is left open, and so is   *)
(* the choice among pending vertices of least level.                       *)
(*                                                                         *)
(* Events: <<"init", v>>, <<"disc", v>>, <<"exam", v>>, <<"edge", e>>,     *)
(* <<"tree", e>>, <<"nontree", e>>, <<"gray", e>>, <<"black", e>>,         *)
(* <<"fin", v>>, <<"end">>.                                                *)
(***************************************************************************)
EXTENDS Multigraph, Integers

\* acc: the oriented edges accepted by the filter; toinit: vertices still to be initialized; src: sources to come
\* black, gray: the vertices coloured so beforehand, which are left alone
BfsStartColoured(vs, acc, toinit, src, black, gray) ==
  [vs |-> vs, acc |-> acc, toinit |-> toinit, src |-> src, held |-> black \cup gray,
   col |-> [v \in vs |-> IF v \in black THEN 2 ELSE IF v \in gray THEN 1 ELSE 0], lvl |-> [v \in vs |-> -1], cur |-> -1, todo |-> {},
   want |-> "", we |-> <<>>, tree |-> {}, done |-> FALSE]

BfsStart(vs, acc, toinit, src) == BfsStartColoured(vs, acc, toinit, src, {}, {})

Pending(s) == {v \in s.vs : s.col[v] = 1 /\ v # s.cur /\ v \notin s.held}
NextToExamine(s) == {v \in Pending(s) : \A w \in Pending(s) : s.lvl[v] <= s.lvl[w]}
Idle(s) == s.want = "" /\ ~s.done

Allowed(s, k, x) ==
  CASE k = "init" -> Idle(s) /\ x \in s.toinit
    [] k = "disc" -> IF s.want = "disc" THEN x = s.we[2]
                     ELSE Idle(s) /\ s.toinit = {} /\ x \in s.src
    [] k = "exam" -> Idle(s) /\ s.toinit = {} /\ s.src = {} /\ s.cur = -1 /\ x \in NextToExamine(s)
    [] k = "edge" -> Idle(s) /\ s.cur # -1 /\ x \in s.todo
    [] k = "tree" -> s.want = "class" /\ x = s.we /\ s.col[x[2]] = 0
    [] k = "nontree" -> s.want = "class" /\ x = s.we /\ s.col[x[2]] # 0
    [] k = "gray" -> s.want = "grayblack" /\ x = s.we /\ s.col[x[2]] = 1
    [] k = "black" -> s.want = "grayblack" /\ x = s.we /\ s.col[x[2]] = 2
    [] k = "fin" -> Idle(s) /\ s.cur = x /\ x # -1 /\ s.todo = {}
    [] k = "end" -> Idle(s) /\ s.toinit = {} /\ s.src = {} /\ s.cur = -1 /\ Pending(s) = {}
    [] OTHER -> FALSE

Apply(s, k, x) ==
  CASE k = "init" -> [s EXCEPT !.toinit = @ \ {x}]
    [] k = "disc" -> [s EXCEPT !.col[x] = 1, !.src = IF s.want = "disc" THEN @ ELSE @ \ {x},
                               !.lvl[x] = IF s.want = "disc" THEN s.lvl[s.cur] + 1 ELSE 0,
                               !.want = "", !.we = <<>>]
    [] k = "exam" -> [s EXCEPT !.cur = x, !.todo = {e \in s.acc : e[1] = x}]
    [] k = "edge" -> [s EXCEPT !.todo = @ \ {x}, !.want = "class", !.we = x]
    [] k = "tree" -> [s EXCEPT !.want = "disc", !.tree = @ \cup {x}]
    [] k = "nontree" -> [s EXCEPT !.want = "grayblack"]
    [] k \in {"gray", "black"} -> [s EXCEPT !.want = "", !.we = <<>>]
    [] k = "fin" -> [s EXCEPT !.cur = -1, !.col[x] = 2]
    [] k = "end" -> [s EXCEPT !.done = TRUE]

\* the colour that a visitor sees on the vertex of the event, or on the target of its edge
Seen(s, k, x) == CASE k \in {"disc", "exam"} -> 1 [] k = "fin" -> 2 [] OTHER -> s.col[x[2]]

(* ------------------------------------------------ reachability, levels *)
RECURSIVE Layer(_, _, _)
\* vertices at hop distance exactly i from src
Layers(acc, src) ==
  LET RECURSIVE L(_, _, _)
      L(seen, last, acc2) == LET nxt == {e[2] : e \in {x \in acc : x[1] \in last}} \ seen
                             IN IF nxt = {} THEN <<>> ELSE <<nxt>> \o L(seen \cup nxt, nxt, acc2)
  IN <<src>> \o L(src, src, acc)
Layer(acc, src, v) == LET ls == Layers(acc, src) IN
                      IF \E i \in 1..Len(ls) : v \in ls[i] THEN (CHOOSE i \in 1..Len(ls) : v \in ls[i]) - 1 ELSE -1
=============================================================================
