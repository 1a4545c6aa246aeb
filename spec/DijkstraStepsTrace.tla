--------------------------- MODULE DijkstraStepsTrace ---------------------------
(* What the visitor of a recorded run of Dijkstra's algorithm saw: a run of DijkstraSteps. *)
EXTENDS DijkstraSteps, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
Flip(e) == <<e[2], e[1], e[3]>>
Start(x) ==
  LET es == S(x.es)
      all == IF x.dir THEN es ELSE es \cup {Flip(e) : e \in es}
      at(e) == CHOOSE i \in 1..Len(x.es) : x.es[i] = e \/ (~x.dir /\ x.es[i] = Flip(e))
  IN Fine(Begin(x.alg, S(x.vs), [u \in S(x.vs) |-> {e \in all : e[1] = u}], [e \in all |-> x.ws[at(e)]], x.s))
Vertex(k) == k \in {"init", "exam", "disc", "fin"}
Bad(f, e) ==
  IF e.op = "silent" THEN Fail("same-without-visitor", e.same = 1)
  ELSE IF e.op = "end" THEN Fail("ended-early", CanStep(f, "end", -1))
  \* told to stop there
  ELSE IF e.op = "stop" THEN Fail("stopped-elsewhere", CanStep(f, "exam", e.x))
  ELSE IF e.op = "colours" THEN Fail("final-colours", S(e.black) = f.seen /\ S(e.gray) = f.front \ {f.d.s})
  ELSE IF IF Vertex(e.op) THEN e.x \notin f.d.vs ELSE e.x \notin DOMAIN f.d.w THEN {"unknown-vertex-or-edge:" \o e.op}
  ELSE IF ~CanStep(f, e.op, e.x) THEN {"not-allowed:" \o e.op}
  ELSE IF e.op = "init" THEN {}
  ELSE Fail("colour-seen:" \o e.op, e.c = -1 \/ e.c \in SeenColours(f, e.op, e.x))
       \cup Fail("distance-seen:" \o e.op, e.d = SeenDist(f, e.op, e.x))
       \cup Fail("predecessor-seen", e.op # "rel" \/ e.x \in S(e.p))
Step(f, e) == IF Vertex(e.op) \/ e.op \in {"edge", "rel", "norel"} THEN DoStep(f, e.op, e.x) ELSE f
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
