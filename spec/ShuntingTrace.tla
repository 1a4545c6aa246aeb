---------------------------- MODULE ShuntingTrace ----------------------------
(* Answers of the shunting-yard algorithm under a table of operators. State: the table. *)
EXTENDS Shunting, TLC, Json, IOUtils, FiniteSets
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
Start(x) == CASE x.table = "algebra" -> Algebra [] x.table = "regex" -> RegexTable [] OTHER -> x.ops
\* the events of a run: <<kind, token>>, 0 an operator pushed, 1 popped, 2 a symbol put out
RECURSIVE Stack(_, _)
Stack(ev, s) ==  \* the stack after the events; <<0>> if they are no stack discipline
  IF ev = <<>> THEN s
  ELSE LET k == Head(ev)[1] a == Head(ev)[2] IN
       CASE k = 0 -> Stack(Tail(ev), Append(s, a))
         [] k = 1 -> IF s = <<>> THEN <<0>> ELSE IF s[Len(s)] # a THEN <<0>> ELSE Stack(Tail(ev), SubSeq(s, 1, Len(s) - 1))
         [] OTHER -> Stack(Tail(ev), s)
Seconds(ev, k) == LET s == SelectSeq(ev, LAMBDA x : x[1] = k) IN [i \in 1..Len(s) |-> s[i][2]]
Occ(s, a) == Cardinality({i \in 1..Len(s) : s[i] = a})
EventsOK(T, w, out, ev) ==
  /\ Seconds(ev, 2) = out
  /\ Stack(ev, <<>>) = <<>>
  /\ LET p == Seconds(ev, 0) IN \A a \in {w[i] : i \in 1..Len(w)} \cup {p[i] : i \in 1..Len(p)} :
        Occ(p, a) = IF a = LP \/ IsOp(T, a) THEN Occ(w, a) ELSE 0
\* the observed tree: symbols and children of nodes
RECURSIVE Seen(_, _, _, _)
Seen(sym, kids, u, k) ==
  IF k = 0 THEN <<0>>
  ELSE <<sym[u]>> \o [i \in 1..Len(kids[u]) |-> Seen(sym, kids, kids[u][i], k - 1)]
\* parentheses that match
RECURSIVE Open(_)
Open(w) == IF w = <<>> THEN 0
           ELSE LET d == Open(SubSeq(w, 1, Len(w) - 1)) a == w[Len(w)] IN
                IF d < 0 THEN d ELSE IF a = LP THEN d + 1 ELSE IF a = RP THEN d - 1 ELSE d
\* one operand more than there are binary operators
Balance(T, w) == Cardinality({i \in 1..Len(w) : IsOperand(w[i])}) = 1 + Cardinality({i \in 1..Len(w) : Binary(T, w[i])})
MustRefuse(T, e) == Open(e.w) # 0 \/ (e.what \in {"ast", "compute"} /\ ~Balance(T, e.w))
Bad(T, e) ==
  IF e.op = "hand" THEN \* a tree built node by node: what it holds and how it is shown
       IF e.rejected = 1 THEN Fail("root-unknown-refused", e.root = 0)
       ELSE Fail("shown-by-hand", e.root > 0 /\ e.shown = Shown(Seen(e.sym, e.kids, e.root, Len(e.sym) + 1)))
            \cup Fail("held-by-hand", e.held = [u \in 1..Len(e.sym) |-> <<e.sym[u], e.kids[u]>>])
  ELSE IF e.op = "refused" THEN Fail("accepted-" \o e.what, ~MustRefuse(T, e) \/ e.r = 1) \cup Fail("refused-" \o e.what, ~WellFormed(T, e.w) \/ e.r = 0)
  ELSE IF ~WellFormed(T, e.w) THEN Assert(FALSE, <<"malformed", e.w>>)
  ELSE LET t == Parse(T, e.w) IN
  CASE e.op = "postfix" -> Fail("postfix-form", e.r = Post(t)) \cup Fail("visitor-events", e.ev = <<>> \/ EventsOK(T, e.w, e.r, e.ev))
    [] e.op = "ast" ->
         IF e.root = 0 THEN {"no-root"}
         ELSE Fail("tree", Seen(e.sym, e.kids, e.root, Len(e.sym) + 1) = t)
              \cup Fail("nodes", Len(e.sym) = Len(Post(t)))
              \cup Fail("shown", e.shown = <<>> \/ e.shown = Shown(t))
              \cup Fail("visitor-events", e.ev = <<>> \/ EventsOK(T, e.w, Post(t), e.ev))
    [] e.op = "compute" -> Fail("value", e.r = Value(t))
    [] OTHER -> {"unknown-op"}
Step(s, e) == s
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
