------------------------------ MODULE BfsTrace ------------------------------
(* Recorded breadth-first searches (and bfs_tree walks): runs of Bfs. *)
EXTENDS Bfs, TLC, Json, IOUtils
VARIABLES tid, l, st
S(seq) == {seq[i] : i \in 1..Len(seq)}
Orient(x) == IF x.dir THEN S(x.es) ELSE S(x.es) \cup {Flip(e) : e \in S(x.es)}
Start(x) == IF x.mode = "tree"
            THEN [started |-> FALSE, root |-> x.src[1], acc |-> S(x.es), pend |-> {<<x.src[1], 0>>}, cur |-> -1, lv |-> 0, todo |-> {}, done |-> FALSE, tree |-> TRUE]
            ELSE [mode |-> x.mode] @@ BfsStartColoured(S(x.vs), Orient(x) \ S(x.refused), IF x.mode = "single" THEN S(x.vs) ELSE {}, S(x.src), S(x.pre), S(x.gray))
IsTree(s) == "root" \in DOMAIN s

(* bfs_tree: start the root; discover a pending node of least depth, examine each of its edges, finish it *)
TAllowed(s, k, x) ==
  CASE k = "start" -> ~s.started /\ x = s.root
    [] k = "disc" -> s.started /\ s.cur = -1 /\ \E p \in s.pend : p[1] = x /\ \A q \in s.pend : p[2] <= q[2]
    [] k = "edge" -> s.cur # -1 /\ x \in s.todo
    [] k = "fin" -> s.cur = x /\ s.todo = {}
    [] k = "end" -> s.started /\ s.cur = -1 /\ s.pend = {}
    [] OTHER -> FALSE
TApply(s, k, x) ==
  CASE k = "start" -> [s EXCEPT !.started = TRUE]
    [] k = "disc" -> [s EXCEPT !.cur = x, !.lv = (CHOOSE p \in s.pend : p[1] = x)[2], !.pend = {p \in @ : p[1] # x}, !.todo = {e \in s.acc : e[1] = x}]
    [] k = "edge" -> [s EXCEPT !.todo = @ \ {x}, !.pend = @ \cup {<<x[2], s.lv + 1>>}]
    [] k = "fin" -> [s EXCEPT !.cur = -1]
    [] OTHER -> s

Known(s, e) == \/ e.op \in {"edge", "tree", "nontree", "gray", "black"} /\ (IF IsTree(s) THEN e.x \in s.acc ELSE e.x \in s.acc)
               \/ e.op \in {"init", "disc", "exam", "fin", "start"} /\ (IsTree(s) \/ e.x \in s.vs)
               \/ e.op = "end"
Bad(s, e) ==
  IF e.op = "colours" THEN (IF S(e.black) = {v \in s.vs : s.col[v] = 2} /\ S(e.white) = {v \in s.vs : s.col[v] = 0} THEN {} ELSE {"final-colours"})
  ELSE IF ~Known(s, e) THEN {"unknown-vertex-or-edge:" \o e.op}
  ELSE IF (IF IsTree(s) THEN TAllowed(s, e.op, e.x) ELSE Allowed(s, e.op, e.x))
       THEN (IF ~IsTree(s) /\ "c" \in DOMAIN e /\ e.c # -1 /\ e.c # Seen(s, e.op, e.x) THEN {"colour-seen:" \o e.op} ELSE {})
  ELSE {"not-allowed:" \o e.op}
Step(s, e) == IF e.op = "colours" THEN s ELSE IF IsTree(s) THEN TApply(s, e.op, e.x) ELSE Apply(s, e.op, e.x)
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
