------------------------------ MODULE AtlasTrace ------------------------------
(* Histories of changes and algorithms on a collection of graphs. State: the collection of Atlas. *)
EXTENDS Atlas, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(q) == {q[i] : i \in 1..Len(q)}
Start(x) == [i \in 1..Len(x.new) |-> IF x.new[i] = 3 THEN View(1, S(x.hv), S(x.he)) ELSE Graph(x.new[i] # 2)]
F(q) == [x \in {q[i][1] : i \in 1..Len(q)} |-> q[CHOOSE i \in 1..Len(q) : q[i][1] = x][2]]
Copied(s, e) == CopyOf(Shown(s, e.j), e.u, F(e.vm), F(e.em))
After(s, e) ==
  CASE e.op \in {"addv", "addv0"} -> AddV(s, e.i, e.v)
    [] e.op = "adde" -> AddE(s, e.i, e.x)
    [] e.op = "dele" -> DelE(s, e.i, e.n)
    [] e.op = "delv" -> DelV(s, e.i, e.v)
    [] e.op = "clear" -> Clear(s, e.i)
    [] e.op = "reverse" -> Reverse(s, e.i)
    [] e.op = "view" -> Put(s, e.i, View(e.j, S(e.hv), S(e.he)))
    [] e.op = "join" -> Join(s, e.i, e.j)
    [] e.op = "meet" -> Meet(s, e.i, e.j)
    [] e.op = "copy" -> Put(s, e.i, Copied(s, e))
    [] OTHER -> s
\* what slot i shows: all = <<vertices, edges, how many, how many, whether listed>> for each slot (-1: not counted), edges of an undirected graph either way
Norm(g, es) == IF g.dir THEN es ELSE {IF x[2] <= x[3] THEN x ELSE <<x[1], x[3], x[2]>> : x \in es}
Seen(s, e) == UNION {LET g == Shown(s, i)  a == e.all[i] IN
   Fail("number-of-vertices", a[3] = -1 \/ a[3] = Cardinality(g.vs))
   \cup Fail("number-of-edges", a[3] = -1 \/ a[4] = Cardinality(g.es))
   \cup IF a[5] = 0 THEN {} ELSE
   Fail("vertices", Len(a[1]) = Cardinality(g.vs) /\ S(a[1]) = g.vs)
   \cup Fail("edges", Len(a[2]) = Cardinality(g.es) /\ Norm(g, S(a[2])) = Norm(g, g.es)) : i \in 1..Len(s)}
Maps(s, e) == LET p == Part(Shown(s, e.j), e.u)  one(q) == Cardinality({q[i][1] : i \in 1..Len(q)}) = Len(q) /\ Cardinality({q[i][2] : i \in 1..Len(q)}) = Len(q) IN
   Fail("copied-vertices", one(e.vm) /\ {e.vm[i][1] : i \in 1..Len(e.vm)} = p.vs)
   \cup Fail("copied-edges", one(e.em) /\ {e.em[i][1] : i \in 1..Len(e.em)} = {x[1] : x \in p.es})
Bad(s, e) ==
  LET g == Shown(s, e.i) IN
  CASE e.op = "addv" -> Fail("vertex-not-new", e.v \notin s[e.i].vs) \cup (IF e.v \in s[e.i].vs THEN {} ELSE Seen(After(s, e), e))
    [] e.op = "copy" -> LET m == Maps(s, e) IN IF m # {} THEN m ELSE Seen(After(s, e), e)
    [] e.op \in {"adde", "dele", "delv", "clear", "reverse", "view", "join", "meet"} -> Seen(After(s, e), e)
    [] e.op = "addv0" -> Fail("vertex-not-new", e.v \notin s[e.i].vs)
    [] e.op = "same" -> Seen(s, e)
    [] e.op = "bfs" -> Fail("breadth-first", Levels(g, e.u, e.r))
    [] e.op = "dfs" -> Fail("depth-first", Len(e.r) = Cardinality(g.vs) /\ S(e.r) = g.vs)
                       \cup Fail("back-edges", g.dir => ((e.back = 0) <=> Acyclic(g.vs, Moves(g))))
    [] e.op = "dij" -> LET w == F(e.w)  d == F(e.d) IN
                       Fail("distances", DOMAIN d = g.vs /\ Tight(g, e.u, w, d))
                       \cup (IF e.to = -1 THEN {} ELSE Fail("shortest-path", Walk(g, e.u, e.path) = e.to /\ Cost(w, e.path) = d[e.to]))
    [] e.op = "scc" -> LET c == F(e.c) IN Fail("components", DOMAIN c = g.vs /\ SccByDef(g.vs, Moves(g), c, e.n))
    [] e.op = "topo" -> Fail("topological-order", TopoSorted(g.vs, Moves(g), e.r))
    [] e.op = "refused" -> Fail("acyclic-graph-refused", ~Acyclic(g.vs, Moves(g)))
    [] e.op = "part" -> LET p == Part(g, e.u) IN
                        Fail("extracted-vertices", Len(e.vs) = Cardinality(p.vs) /\ S(e.vs) = p.vs)
                        \cup Fail("extracted-edges", Len(e.es) = Cardinality(p.es) /\ S(e.es) = {x[1] : x \in p.es})
    [] e.op = "cut" -> Fail("cut", Len(e.r) = Cardinality(S(e.r)) /\ S(e.r) = CutOf(g, e.u, S(e.es)))
    [] e.op = "near" -> Fail("outgoing", e.nout = Cardinality(Outs(g, e.u)) /\ Len(e.out) = e.nout /\ S(e.out) = Outs(g, e.u))
                        \cup Fail("incoming", e.has = 1 => (e.nin = Cardinality(Ins(g, e.u)) /\ Len(e.in) = e.nin /\ S(e.in) = Ins(g, e.u)))
                        \cup Fail("counts", e.nv = Cardinality(g.vs) /\ e.ne = Cardinality(g.es))
    [] e.op = "between" -> LET X == {x \in g.es : <<x[2], x[3]>> = <<e.u, e.v>> \/ (~g.dir /\ <<x[3], x[2]>> = <<e.u, e.v>>)} IN
                           Fail("edge-between", IF Cardinality(X) = 1 THEN X = {x \in g.es : x[1] = e.r} ELSE e.r = 0)
    [] OTHER -> {"unknown-op"}
Step(s, e) == After(s, e)
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
