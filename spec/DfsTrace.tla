------------------------------ MODULE DfsTrace ------------------------------
(* Recorded depth-first searches (and dfs_tree walks): runs of Dfs. *)
EXTENDS Dfs, TLC, Json, IOUtils
VARIABLES tid, l, st
S(seq) == {seq[i] : i \in 1..Len(seq)}
Orient(x) == IF x.dir THEN S(x.es) ELSE S(x.es) \cup {Flip(e) : e \in S(x.es)}
Start(x) == IF x.mode = "tree"
            THEN [root |-> x.src[1], started |-> FALSE, acc |-> S(x.es), pend |-> <<{x.src[1]}>>, cur |-> -1, todo |-> {}]
            ELSE DfsStartColoured(S(x.vs), Orient(x) \ S(x.refused), x.src, x.ordered, S(x.pre), S(x.gray))
IsTree(s) == "root" \in DOMAIN s
(* dfs_tree: a stack of sets of siblings; the next node comes from the innermost set that is not empty *)
RECURSIVE Trim(_)
Trim(p) == IF p # <<>> /\ p[Len(p)] = {} THEN Trim(Front(p)) ELSE p
TAllowed(s, k, x) ==
  CASE k = "start" -> ~s.started /\ x = s.root
    [] k = "disc" -> s.started /\ s.cur = -1 /\ s.pend # <<>> /\ x \in s.pend[Len(s.pend)]
    [] k = "edge" -> s.cur # -1 /\ x \in s.todo
    [] k = "fin" -> s.cur = x /\ s.todo = {}
    [] k = "end" -> s.started /\ s.cur = -1 /\ s.pend = <<>>
    [] OTHER -> FALSE
TApply(s, k, x) ==
  CASE k = "start" -> [s EXCEPT !.started = TRUE]
    [] k = "disc" -> [s EXCEPT !.cur = x, !.pend = Append(Front(@), @[Len(@)] \ {x}), !.todo = {e \in s.acc : e[1] = x}]
    [] k = "edge" -> [s EXCEPT !.todo = @ \ {x}]
    [] k = "fin" -> [s EXCEPT !.cur = -1, !.pend = Trim(Append(@, {e[2] : e \in {y \in s.acc : y[1] = x}}))]
    [] OTHER -> s
Known(s, e) == \/ e.op \in {"edge", "tree", "back", "foc"} /\ e.x \in s.acc
               \/ e.op \in {"disc", "fin", "start"} /\ (IsTree(s) \/ e.x \in s.vs)
               \/ e.op = "end"
Bad(s, e) ==
  IF e.op = "colours" THEN (IF S(e.black) = {v \in s.vs : s.col[v] = 2} /\ S(e.white) = {v \in s.vs : s.col[v] = 0} THEN {} ELSE {"final-colours"})
  ELSE IF ~Known(s, e) THEN {"unknown-vertex-or-edge:" \o e.op}
  ELSE IF (IF IsTree(s) THEN TAllowed(s, e.op, e.x) ELSE Allowed(s, e.op, e.x))
       THEN (IF ~IsTree(s) /\ "c" \in DOMAIN e /\ e.c # -1 /\ e.c # Seen(s, e.op, e.x) THEN {"colour-seen:" \o e.op} ELSE {})
  ELSE {"not-allowed:" \o e.op}
Step(s, e) == IF e.op = "colours" THEN s ELSE IF IsTree(s) THEN TApply(s, e.op, e.x) ELSE Apply(s, e.op, e.x)
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
