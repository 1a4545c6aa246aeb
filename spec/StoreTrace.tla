----------------------------- MODULE StoreTrace -----------------------------
(* Chains of language operations on automata.  State: what each automaton showed last. *)
EXTENDS Store, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
Start(x) == x.all
M(x) == [nd |-> x.nd, out |-> x.out, ini |-> S(x.ini), fin |-> S(x.fin)]
\* the automaton i as it shows itself now, and as it was
Now(e) == M(e.all[e.i])
Was(s, j) == M(s[j])
Others(s, e) == Fail("another-automaton-changed", Len(e.all) = Len(s) /\ \A j \in 1..Len(s) : j # e.i => e.all[j] = s[j])
Result(e, ok(_)) == IF ~SlotOK(Now(e)) THEN {"not-an-automaton"} ELSE Fail("wrong-language", ok(Live(Now(e))))
Edited(s, e, T, fin) == LET m == Now(e)  o == Was(s, e.i) IN
  IF ~WF(m) THEN {"not-an-automaton"}
  ELSE Fail("wrong-change", Len(m.out) = Len(o.out) /\ Trans(m) = T /\ m.fin = fin /\ m.ini = o.ini)
\* reading is not writing
Unchanged(s, e) == Fail("reading-changed-an-automaton", e.all[e.i] = s[e.i])
Answer == [eq |-> 0, lt |-> 1, gt |-> -1, no |-> 9]
Bad(s, e) ==
  Others(s, e) \cup
  CASE e.op = "given" -> Result(e, LAMBDA m : TRUE)
    [] e.op = "word" -> Result(e, LAMBDA m : SameWords(OfWord(e.w), m))
    [] e.op = "same" -> Result(e, LAMBDA m : SameWords(Was(s, e.j), m))
    [] e.op = "or" -> Result(e, LAMBDA m : Combines(Was(s, e.j), Was(s, e.k), m, Or))
    [] e.op = "and" -> Result(e, LAMBDA m : Combines(Was(s, e.j), Was(s, e.k), m, And))
    [] e.op = "plus" -> Result(e, LAMBDA m : Combines(Was(s, e.i), OfWord(e.w), m, Or))
    [] e.op = "fuse" -> Result(e, LAMBDA m : Combines(Was(s, e.i), Was(s, e.j), m, Or))
    [] e.op = "add" -> Edited(s, e, Added(Was(s, e.i), e.t[1], e.t[2], e.t[3]), Was(s, e.i).fin)
    [] e.op = "del" -> Edited(s, e, Removed(Was(s, e.i), e.t[1], e.t[2], e.t[3]), Was(s, e.i).fin)
    [] e.op = "final" -> Edited(s, e, Trans(Was(s, e.i)), IF e.b = 1 THEN Was(s, e.i).fin \cup {e.q} ELSE Was(s, e.i).fin \ {e.q})
    [] e.op = "cat" -> Result(e, LAMBDA m : SameWords(Followed(Was(s, e.i), Was(s, e.j)), m))
    [] e.op = "alt" -> Result(e, LAMBDA m : Combines(Was(s, e.i), Was(s, e.j), m, Or))
    [] e.op = "star" -> Result(e, LAMBDA m : SameWords(Starred(Was(s, e.i)), m))
    [] e.op = "factors" -> Result(e, LAMBDA m : SameWords(Factors(e.w), m))
    [] e.op = "look" -> Unchanged(s, e)
    [] e.op = "incl" -> Unchanged(s, e) \cup Fail("wrong-relation", e.r = Answer[Relation(Det(Was(s, e.j)), Det(Was(s, e.k)))])
    [] e.op = "accepts" -> Unchanged(s, e) \cup Fail("accepts", (e.r = 1) <=> NAccepts(Live(Was(s, e.j)), e.w))
    [] OTHER -> {"unknown-op"}
Step(s, e) == e.all
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
