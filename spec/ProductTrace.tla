---------------------------- MODULE ProductTrace ----------------------------
(* Answers of deterministic_union, deterministic_intersection and deterministic_inclusion. *)
EXTENDS Lang, TLC, Json, IOUtils
VARIABLES tid, l, st
Fail(name, ok) == IF ok THEN {} ELSE {name}
S(seq) == {seq[i] : i \in 1..Len(seq)}
M(x) == [out |-> x.out, ini |-> x.ini, fin |-> S(x.fin)]
Start(x) == [m1 |-> M(x.m1), m2 |-> M(x.m2), r1 |-> x.m1, r2 |-> x.m2]
Same(s, e) == Fail("operand-changed", e.after1 = s.r1 /\ e.after2 = s.r2)
\* for the intersection, the pairs reached without leaving either automaton
ReachedBy(m1, m2, kind) ==
  LET cut(x) == IF kind = "and" /\ Bottom \in {x[1], x[2]} THEN <<Bottom, Bottom>> ELSE x
      Nx(x, a) == cut(<<Delta(m1, x[1], a), Delta(m2, x[2], a)>>)
  IN JointFrom(cut(<<m1.ini, m2.ini>>), Syms(m1) \cup Syms(m2), Nx)
Answer == [eq |-> 0, lt |-> 1, gt |-> -1, no |-> 9]
\* the states of the product m stand for the pairs K: <<q1, q2, q>>
StandsFor(m1, m2, kind, m, K) ==
  LET live(x) == IF kind = "or" THEN x # <<Bottom, Bottom>> ELSE x[1] # Bottom /\ x[2] # Bottom
      at(x) == IF \E y \in K : y[1] = x[1] /\ y[2] = x[2] THEN (CHOOSE y \in K : y[1] = x[1] /\ y[2] = x[2])[3] ELSE Bottom
      fin(x) == IF kind = "or" THEN F(m1, x[1]) \/ F(m2, x[2]) ELSE F(m1, x[1]) /\ F(m2, x[2])
  IN /\ {<<y[1], y[2]>> : y \in K} = {x \in ReachedBy(m1, m2, kind) : live(x)}
     /\ {y[3] : y \in K} = States(m) /\ Cardinality(K) = Cardinality(States(m))
     /\ live(<<m1.ini, m2.ini>>) => m.ini = at(<<m1.ini, m2.ini>>)
     /\ \A y \in K : /\ F(m, y[3]) <=> fin(y)
                     /\ \A a \in Syms(m1) \cup Syms(m2) \cup Syms(m) : Delta(m, y[3], a) = at(<<Delta(m1, y[1], a), Delta(m2, y[2], a)>>)
Bad(s, e) ==
  CASE e.op = "prod" -> LET m == IF Len(e.m.out) = 0 THEN [M(e.m) EXCEPT !.ini = Bottom] ELSE M(e.m) IN
            IF ~DetWF(m) THEN {"not-a-deterministic-automaton"}
            ELSE Fail("no-initial-state", m.ini \in States(m) \/ Bottom \in {s.m1.ini, s.m2.ini})
                 \cup Fail("wrong-language", IF e.kind = "or" THEN IsUnion(s.m1, s.m2, m) ELSE IsIntersection(s.m1, s.m2, m))
                 \cup Fail("not-the-given-automaton", e.given = 1) \cup Same(s, e)
    [] e.op = "incl" -> Fail("wrong-relation", e.r = Answer[Relation(s.m1, s.m2)])
                        \cup Fail("wrong-converse-relation", e.rev = Answer[Relation(s.m2, s.m1)]) \cup Fail("visitor-not-used", e.vis \in {9, e.r}) \cup Same(s, e)
    [] e.op = "map" -> LET m == IF Len(e.m.out) = 0 THEN [M(e.m) EXCEPT !.ini = Bottom] ELSE M(e.m) IN
                       IF ~DetWF(m) THEN {"not-a-deterministic-automaton"}
                       ELSE Fail("pairs-of-states", StandsFor(s.m1, s.m2, e.kind, m, S(e.known))) \cup Fail("not-the-given-automaton", e.given = 1)
    [] OTHER -> {"unknown-op"}
Step(s, e) == s
Traces == JsonDeserialize(IOEnv.VT_TRACES)
INSTANCE TraceKit
=============================================================================
