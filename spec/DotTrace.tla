-------------------------------- MODULE DotTrace --------------------------------
(* Exports of graphs, and what is read back from them. State: the graph
   [kind, directed, vs, es, vkeys, ekeys, defaults]:
   vs: <<name, final, initial, symbol, own>>, es: <<source, target, symbol, own>> (names),
   own: the attributes <<key, value>> asked for, vkeys, ekeys: the keys asked for. *)
EXTENDS Dot, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
Start(x) == x
Count(s, a) == Cardinality({i \in 1..Len(s) : s[i] = a})
SameBag(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Count(x, x[i]) = Count(y, x[i])
Automaton(k) == k \in {"automaton", "nfa", "node"}
\* attributes <<key, value>> of a vertex, an edge
VertexAttrs(g, v) ==
  S(v[5])
  \cup (IF g.kind # "graph" /\ SHAPE \notin S(g.vkeys) THEN {<<SHAPE, (IF v[2] = 1 THEN DOUBLE ELSE <<>>) \o CIRCLE>>} ELSE {})
  \cup (IF g.kind = "node" /\ LABEL \notin S(g.vkeys) THEN {<<LABEL, IF v[3] = 1 THEN <<94>> ELSE v[4]>>} ELSE {})
EdgeAttrs(g, e) ==
  S(e[4]) \cup (IF Automaton(g.kind) /\ LABEL \notin S(g.ekeys) THEN {<<LABEL, e[3]>>} ELSE {})
Ends(g, u, v) == IF g.directed = 1 THEN <<u, v>> ELSE {u, v}
\* how an attribute is written
Written(a) == IF a[1] = LABEL THEN <<a[1], 2, Escaped(a[2], 1)>> ELSE <<a[1], 1, a[2]>>
AttrsOf(s) == Attrs(s, IF IsEdge(s) THEN 4 ELSE 2)
ExportBad(g, e) ==
  LET b == Body(e.toks) IN
  IF b = Malformed THEN {"document"}
  ELSE LET ss == Split(b, <<>>, 0) IN
  IF \E i \in 1..Len(ss) : ~StatementOK(ss[i]) THEN {"statement"}
  ELSE
  LET vs == SelectSeq(ss, IsVertex)
      es == SelectSeq(ss, IsEdge)
      ds == SelectSeq(ss, IsDefault)
      seenV == [i \in 1..Len(vs) |-> <<vs[i][1][2], S(AttrsOf(vs[i]))>>]
      wantV == [i \in 1..Len(g.vs) |-> <<g.vs[i][1], {Written(a) : a \in VertexAttrs(g, g.vs[i])}>>]
      seenE == [i \in 1..Len(es) |-> <<Ends(g, es[i][1][2], es[i][3][2]), S(AttrsOf(es[i]))>>]
      wantE == [i \in 1..Len(g.es) |-> <<Ends(g, g.es[i][1], g.es[i][2]), {Written(a) : a \in EdgeAttrs(g, g.es[i])}>>]
      seenD == [i \in 1..Len(ds) |-> <<ds[i][1][2], S(AttrsOf(ds[i]))>>]
      wantD == [i \in 1..Len(g.defaults) |-> <<g.defaults[i][1], {<<a[1], 1, a[2]>> : a \in S(g.defaults[i][2])}>>]
  IN Fail("kind-of-graph", e.toks[1][2] = IF g.directed = 1 THEN DIGRAPH ELSE GRAPH)
     \cup Fail("kind-of-arc", \A i \in 1..Len(es) : es[i][2] = <<3, IF g.directed = 1 THEN <<45, 62>> ELSE <<45, 45>>>>)
     \cup Fail("attribute-twice", \A i \in 1..Len(ss) : Cardinality({AttrsOf(ss[i])[k][1] : k \in 1..Len(AttrsOf(ss[i]))}) = Len(AttrsOf(ss[i])))
     \cup Fail("declared-vertices", SameBag([i \in 1..Len(vs) |-> seenV[i][1]], [i \in 1..Len(g.vs) |-> g.vs[i][1]]))
     \cup Fail("vertex-attributes", S(seenV) = S(wantV))
     \cup Fail("declared-edges", SameBag([i \in 1..Len(es) |-> seenE[i][1]], [i \in 1..Len(g.es) |-> wantE[i][1]]))
     \cup Fail("edge-attributes", SameBag(seenE, wantE))
     \cup Fail("defaults", seenD = wantD)
     \cup Fail("vertices-before-edges", \A i, j \in 1..Len(ss) : IsVertex(ss[i]) /\ IsEdge(ss[j]) => i < j)
\* what is read back: vertices <<name, attributes>> by the attribute that tells them apart, edges by these names
ReadBad(g, e) ==
  LET Keep(a, keys) == {x \in a : x[1] \in S(keys)}
      seenV == [i \in 1..Len(e.vs) |-> <<e.vs[i][1], S(e.vs[i][2])>>]
      wantV == [i \in 1..Len(g.vs) |-> <<g.vs[i][1], Keep(VertexAttrs(g, g.vs[i]), e.vkeys)>>]
      seenE == [i \in 1..Len(e.es) |-> <<Ends(g, e.es[i][1], e.es[i][2]), S(e.es[i][3])>>]
      wantE == [i \in 1..Len(g.es) |-> <<Ends(g, g.es[i][1], g.es[i][2]), Keep(EdgeAttrs(g, g.es[i]), e.ekeys)>>]
  IN Fail("vertices-read", SameBag(seenV, wantV)) \cup Fail("edges-read", SameBag(seenE, wantE))
\* read without looking at the attributes: as many vertices and edges, and the vertices have the same degrees
Degrees(vs, es) == [i \in 1..Len(vs) |-> <<Count([k \in 1..Len(es) |-> es[k][1]], vs[i]), Count([k \in 1..Len(es) |-> es[k][2]], vs[i]), Count(es, <<vs[i], vs[i]>>)>>]
Sums(ds) == [i \in 1..Len(ds) |-> <<ds[i][1] + ds[i][2], ds[i][3]>>]
ShapeBad(g, e) ==
  LET a == Degrees(e.at, e.es)
      b == Degrees([i \in 1..Len(g.vs) |-> g.vs[i][1]], [i \in 1..Len(g.es) |-> <<g.es[i][1], g.es[i][2]>>])
  IN Fail("shape-read", Len(e.es) = Len(g.es) /\ IF g.directed = 1 THEN SameBag(a, b) ELSE SameBag(Sums(a), Sums(b)))
JsonBad(g, e) ==
  Fail("json-kind", e.kind = IF g.directed = 1 THEN DIGRAPH ELSE GRAPH)
  \cup Fail("json-vertices", SameBag([i \in 1..Len(e.vs) |-> <<e.vs[i][1], S(e.vs[i][2])>>], [i \in 1..Len(g.vs) |-> <<g.vs[i][1], S(g.vs[i][5])>>]))
  \cup Fail("json-edges", SameBag([i \in 1..Len(e.es) |-> <<Ends(g, e.es[i][1], e.es[i][2]), S(e.es[i][3])>>], [i \in 1..Len(g.es) |-> <<Ends(g, g.es[i][1], g.es[i][2]), S(g.es[i][4])>>]))
\* a text written by hand, line by line: what a visitor is called with, the graph that is made of it
LineCall(ts) == LET s == LineStatement(ts) IN
  IF LineIsEdge(s) THEN <<"edge", s[1][2], s[3][2], LineAttrs(s)>>
  ELSE IF LineIsVertex(s) THEN <<"vertex", s[1][2], <<>>, LineAttrs(s)>>
  ELSE <<"else", <<>>, <<>>, {}>>
CallsBad(e) ==
  Fail("lines-visited", Len(e.calls) = Len(e.lines))
  \cup Fail("line-visited", \A i \in 1..Len(e.lines) : i > Len(e.calls) \/ (LET c == e.calls[i] IN <<c[1], c[2], c[3], S(c[4])>> = LineCall(e.lines[i]) /\ c[5] = e.lines[i]))
HandBad(e) ==
  LET calls == [i \in 1..Len(e.lines) |-> LineCall(e.lines[i])]
      vs == SelectSeq(calls, LAMBDA c : c[1] = "vertex")
      es == SelectSeq(calls, LAMBDA c : c[1] = "edge")
      Keep(a, keys) == {x \in a : x[1] \in S(keys)}
      Id(name) == LET v == CHOOSE c \in S(vs) : c[2] = name IN (CHOOSE x \in v[4] : x[1] = <<105, 100>>)[2]
      E(u, v) == IF e.directed = 1 THEN <<u, v>> ELSE {u, v}
      seenV == [i \in 1..Len(e.vs) |-> S(e.vs[i])]
      wantV == [i \in 1..Len(vs) |-> Keep(vs[i][4], e.vkeys)]
      seenE == [i \in 1..Len(e.es) |-> <<E(e.es[i][1], e.es[i][2]), S(e.es[i][3])>>]
      wantE == [i \in 1..Len(es) |-> <<E(Id(es[i][2]), Id(es[i][3])), Keep(es[i][4], e.ekeys)>>]
  IN Fail("vertices-read", SameBag(seenV, wantV)) \cup Fail("edges-read", SameBag(seenE, wantE))
Within(x, s) == \E i \in 0..(Len(s) - Len(x)) : SubSeq(s, i + 1, i + Len(x)) = x
Bad(g, e) ==
  CASE e.op = "dot" -> ExportBad(g, e)
    [] e.op = "read" -> ReadBad(g, e)
    [] e.op = "shape" -> ShapeBad(g, e)
    [] e.op = "json" -> JsonBad(g, e)
    [] e.op = "calls" -> CallsBad(e)
    [] e.op = "hand" -> HandBad(e)
    [] e.op = "show" -> Fail("shown", \A i \in 1..Len(e.parts) : Within(e.parts[i], e.shown))
         \cup Fail("saved", e.saved = <<-1>> \/ \A i \in 1..Len(e.parts) : Within(e.parts[i], e.saved))
         \cup Fail("link-shown", Within(e.link, e.shown)) \cup Fail("background", Within(e.color, e.shown))
    [] e.op = "escape" -> Fail("escaped", e.r = Escaped(e.s, 1)) \cup Fail("escaped-characters", \A i \in 1..Len(e.s) : e.chars[i] = EscapedChar(e.s[i]))
    [] e.op = "render" -> Fail("refused", (e.r = <<-1>>) <=> e.status # 0)
         \cup Fail("rendered-text", e.stdin = e.dot)
         \cup Fail("engine", e.engine = e.asked[1]) \cup Fail("format", e.format = e.asked[2])
         \cup Fail("rendered", e.status # 0 \/ e.r = e.answer)
    [] OTHER -> {"unknown-op"}
Step(s, e) == s
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
