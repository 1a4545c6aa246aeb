-------------------------------- MODULE Dfs ---------------------------------
(***************************************************************************)
(* Depth-first search as a protocol of events.  The state holds colours,   *)
(* the stack of the current search - <<vertex, edges still to examine>>,   *)
(* top last - the sources to come and the event owed next.  The order of   *)
(* out-edges is open; sources are taken in the order given, or in any      *)
(* order if they come without one (ordered = FALSE).                       *)
(*                                                                         *)
(* Events: <<"start", v>>, <<"disc", v>>, <<"edge", e>>, <<"tree", e>>,    *)
(* <<"back", e>>, <<"foc", e>>, <<"fin", v>>, <<"end">>.                   *)
(***************************************************************************)
EXTENDS Multigraph, Integers

\* black, gray: the vertices coloured so beforehand
DfsStartColoured(vs, acc, src, ordered, black, gray) ==
  [vs |-> vs, acc |-> acc, src |-> src, ordered |-> ordered,
   col |-> [v \in vs |-> IF v \in black THEN 2 ELSE IF v \in gray THEN 1 ELSE 0], stk |-> <<>>, want |-> "", we |-> <<>>, wv |-> -1,
   tree |-> {}, back |-> {}, foc |-> {}, done |-> FALSE]

DfsStart(vs, acc, src, ordered, black) == DfsStartColoured(vs, acc, src, ordered, black, {})

Idle(s) == s.want = "" /\ ~s.done
Top(s) == s.stk[Len(s.stk)]
White(s, v) == s.col[v] = 0
\* the sources among which the next search starts
NextSources(s) ==
  LET unseen == {i \in 1..Len(s.src) : White(s, s.src[i])} IN
  IF unseen = {} THEN {}
  ELSE IF s.ordered THEN {s.src[CHOOSE i \in unseen : \A j \in unseen : i <= j]}
  ELSE {s.src[i] : i \in unseen}

Allowed(s, k, x) ==
  CASE k = "start" -> Idle(s) /\ s.stk = <<>> /\ x \in NextSources(s)
    [] k = "disc" -> s.want = "disc" /\ x = s.wv
    [] k = "edge" -> Idle(s) /\ s.stk # <<>> /\ x \in Top(s)[2]
    [] k = "tree" -> s.want = "class" /\ x = s.we /\ s.col[x[2]] = 0
    [] k = "back" -> s.want = "class" /\ x = s.we /\ s.col[x[2]] = 1
    [] k = "foc"  -> s.want = "class" /\ x = s.we /\ s.col[x[2]] = 2
    [] k = "fin" -> Idle(s) /\ s.stk # <<>> /\ Top(s) = <<x, {}>>
    [] k = "end" -> Idle(s) /\ s.stk = <<>> /\ NextSources(s) = {}
    [] OTHER -> FALSE

Front(q) == SubSeq(q, 1, Len(q) - 1)
Apply(s, k, x) ==
  CASE k = "start" -> [s EXCEPT !.want = "disc", !.wv = x]
    [] k = "disc" -> [s EXCEPT !.col[x] = 1, !.want = "", !.wv = -1, !.we = <<>>,
                               !.stk = Append(@, <<x, {e \in s.acc : e[1] = x}>>)]
    [] k = "edge" -> [s EXCEPT !.stk = Append(Front(@), <<Top(s)[1], Top(s)[2] \ {x}>>), !.want = "class", !.we = x]
    [] k = "tree" -> [s EXCEPT !.want = "disc", !.wv = x[2], !.tree = @ \cup {x}]
    [] k = "back" -> [s EXCEPT !.want = "", !.we = <<>>, !.back = @ \cup {x}]
    [] k = "foc"  -> [s EXCEPT !.want = "", !.we = <<>>, !.foc = @ \cup {x}]
    [] k = "fin" -> [s EXCEPT !.stk = Front(@), !.col[x] = 2]
    [] k = "end" -> [s EXCEPT !.done = TRUE]

\* the colour that a visitor sees on the vertex of the event, or on the target of its edge
Seen(s, k, x) == CASE k = "disc" -> 1 [] k = "fin" -> 2 [] OTHER -> s.col[x[2]]

RECURSIVE Closure(_, _)
Closure(acc, us) == LET n == us \cup {e[2] : e \in {x \in acc : x[1] \in us}} IN IF n = us THEN us ELSE Closure(acc, n)
=============================================================================
