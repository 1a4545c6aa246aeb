--------------------------- MODULE ParallelModel ----------------------------
(* Every run of the parallel traversal on small automata.  The union and the intersection are built
   from the examined moves and the inclusion verdict from the discovered pairs, as a rider of the
   traversal; at the end they are compared with the languages, word by word. *)
EXTENDS Parallel, TLC
CONSTANTS N1, N2, L, Inis
VARIABLES s, un, it, verdict
vars == <<s, un, it, verdict>>
Autos(n) == {[out |-> o, ini |-> i, fin |-> f] :
               o \in [1..n -> {q \in UNION {[1..k -> L \X (1..n)] : k \in 0..Cardinality(L)} :
                                \A i, j \in DOMAIN q : i < j => q[i][1] < q[j][1]}], f \in SUBSET (1..n), i \in Inis}
\* the product under construction: states are pairs
Empty == [st |-> {}, tr |-> {}]
Update(v, f1, f2) == IF f1 = f2 THEN v ELSE LET r == IF f2 THEN "lt" ELSE "gt" IN IF v = "eq" THEN r ELSE IF v = r THEN v ELSE "no"
Init == \E m1 \in Autos(N1), m2 \in Autos(N2) :
          /\ s = PStart(m1, m2, {<<m1.ini, m2.ini>>}, {}) /\ un = Empty /\ it = Empty /\ verdict = "eq"
Do(k, x, a, e1, e2) ==
  /\ PAllowed(s, k, x, a, e1, e2)
  /\ s' = PApply(s, k, x, a, e1, e2)
  /\ un' = IF k = "start" THEN [un EXCEPT !.st = @ \cup {x}]
           ELSE IF k = "edge" THEN [un EXCEPT !.st = @ \cup {Tgt(s)}, !.tr = @ \cup {<<s.cur, a, Tgt(s)>>}] ELSE un
  /\ it' = IF k = "start" THEN [it EXCEPT !.st = @ \cup {x}]
           ELSE IF k = "edge" /\ Tgt(s)[1] # Bottom /\ Tgt(s)[2] # Bottom
                THEN [it EXCEPT !.st = @ \cup {Tgt(s)}, !.tr = @ \cup {<<s.cur, a, Tgt(s)>>}] ELSE it
  /\ verdict' = IF k \in {"start", "disc"} THEN Update(verdict, F(s.m1, x[1]), F(s.m2, x[2])) ELSE verdict
Pool == IF s.ph \in {"start", "idle"} THEN s.todoSrc \cup s.pend ELSE {s.cur}
Next == \/ \E x \in Pool : Do("start", x, 0, <<>>, <<>>) \/ Do("exam", x, 0, <<>>, <<>>) \/ Do("fin", x, 0, <<>>, <<>>)
        \/ \E x \in Pool, a \in s.todo : Do("sym", x, a, <<>>, <<>>)
        \/ s.ph = "disc" /\ Do("disc", Tgt(s), s.a, <<>>, <<>>)
        \/ s.ph \in {"edge", "kind"} /\ \E k \in {"edge", "tree", "gray", "black"} :
              Do(k, <<>>, s.a, MoveEdge(s.m1, s.cur[1], s.a), MoveEdge(s.m2, s.cur[2], s.a))
        \/ Do("end", <<>>, 0, <<>>, <<>>)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(s.ph = "done")
NotStuck == s.ph = "done" \/ ENABLED Next
W == WordsUpTo(L, (N1 + 1) * (N2 + 1) - 1)
A1(w) == Accepts(s.m1, w)
A2(w) == Accepts(s.m2, w)
Done == s.ph = "done"
RECURSIVE PRun(_, _, _)
PRun(T, x, w) == IF w = <<>> THEN {x} ELSE UNION {PRun(T, t[3], Tail(w)) : t \in {y \in T : y[1] = x /\ y[2] = Head(w)}}
PAccepts(p, Fin(_), w) == \E x \in PRun(p.tr, <<s.m1.ini, s.m2.ini>>, w) : Fin(x)
UFin(x) == F(s.m1, x[1]) \/ F(s.m2, x[2])
IFin(x) == F(s.m1, x[1]) /\ F(s.m2, x[2])
DetProduct(p) == \A t, u \in p.tr : t[1] = u[1] /\ t[2] = u[2] => t = u
UnionOK == Done => DetProduct(un) /\ \A w \in W : PAccepts(un, UFin, w) <=> (A1(w) \/ A2(w))
InterOK == Done => DetProduct(it) /\ \A w \in W : PAccepts(it, IFin, w) <=> (A1(w) /\ A2(w))
Words1 == {w \in W : A1(w)}
Words2 == {w \in W : A2(w)}
Truth == IF Words1 = Words2 THEN "eq" ELSE IF Words1 \subseteq Words2 THEN "lt" ELSE IF Words2 \subseteq Words1 THEN "gt" ELSE "no"
InclusionOK == Done => verdict = Truth /\ Relation(s.m1, s.m2) = Truth
\* each pair reached by a common word is examined once, in the order of its shortest word
PairsOK == Done => DOMAIN s.col = (Pairs(s.m1, s.m2) \ {<<Bottom, Bottom>>}) \cup s.srcs /\ \A x \in DOMAIN s.col : s.col[x] = 2
ShortestWord(x) == CHOOSE k \in 0..(N1+1)*(N2+1) : /\ \E w \in [1..k -> L] : <<Run(s.m1, s.m1.ini, w), Run(s.m2, s.m2.ini, w)>> = x
                                                  /\ \A j \in 0..(k-1) : \A w \in [1..j -> L] : <<Run(s.m1, s.m1.ini, w), Run(s.m2, s.m2.ini, w)>> # x
LevelOK == Done => \A x \in DOMAIN s.col : s.lvl[x] = ShortestWord(x)
=============================================================================
