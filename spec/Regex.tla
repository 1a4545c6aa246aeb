-------------------------------- MODULE Regex --------------------------------
(***************************************************************************)
(* Regular expressions: what they denote.                                  *)
(* Terms: <<"set", C>> (one character of the set C), <<"eps">>,            *)
(* <<"cat", a, b>>, <<"alt", a, b>>, <<"rep", a, m, n>> (from m to n       *)
(* times, n = -1: no bound).                                               *)
(* The language of a term is given by its partial derivatives              *)
(* (Antimirov); an automaton accepts it iff in every pair (set of terms,   *)
(* automaton state) that a common word reaches, both or none are final.    *)
(* The expressions are read by recursive descent from their characters.    *)
(***************************************************************************)
EXTENDS Lang, TLC
Eps == <<"eps">>
RECURSIVE Null(_)
Null(t) == CASE t[1] = "eps" -> TRUE
             [] t[1] = "set" -> FALSE
             [] t[1] = "cat" -> Null(t[2]) /\ Null(t[3])
             [] t[1] = "alt" -> Null(t[2]) \/ Null(t[3])
             [] t[1] = "rep" -> t[3] = 0 \/ Null(t[2])
CatT(a, b) == IF a = Eps THEN b ELSE IF b = Eps THEN a ELSE <<"cat", a, b>>
RepT(a, m, n) == IF n = 0 THEN Eps ELSE <<"rep", a, m, n>>
RECURSIVE PD(_, _)
PD(t, c) ==
  CASE t[1] = "eps" -> {}
    [] t[1] = "set" -> IF c \in t[2] THEN {Eps} ELSE {}
    [] t[1] = "cat" -> {CatT(d, t[3]) : d \in PD(t[2], c)} \cup (IF Null(t[2]) THEN PD(t[3], c) ELSE {})
    [] t[1] = "alt" -> PD(t[2], c) \cup PD(t[3], c)
    [] t[1] = "rep" -> IF t[4] = 0 THEN {}
                       ELSE LET r == RepT(t[2], IF t[3] = 0 THEN 0 ELSE t[3] - 1, IF t[4] = -1 THEN -1 ELSE t[4] - 1)
                            IN {CatT(d, r) : d \in PD(t[2], c)}
TDelta(X, c) == UNION {PD(t, c) : t \in X}
TFinal(X) == \E t \in X : Null(t)
RECURSIVE TRun(_, _)
TRun(X, w) == IF w = <<>> THEN X ELSE TRun(TDelta(X, Head(w)), Tail(w))
Matches(t, w) == TFinal(TRun({t}, w))

(* ------------- comparison with automata, one symbol per kind of symbol --- *)
RECURSIVE Sets(_)
Sets(t) == CASE t[1] = "set" -> {t[2]} [] t[1] = "eps" -> {}
             [] t[1] = "rep" -> Sets(t[2])
             [] OTHER -> Sets(t[2]) \cup Sets(t[3])
RECURSIVE Keep(_, _)
Keep(t, R) == CASE t[1] = "set" -> <<"set", t[2] \cap R>> [] t[1] = "eps" -> t
               [] t[1] = "rep" -> <<"rep", Keep(t[2], R), t[3], t[4]>>
               [] OTHER -> <<t[1], Keep(t[2], R), Keep(t[3], R)>>
\* symbols that no set of the term and no transition distinguishes are alike
Kind(t, T, a) == <<{s \in Sets(t) : a \in s}, {<<x[1], x[3]>> : x \in {y \in T : y[2] = a}}>>
Kinds(t, m) == LET T == Trans(m)
                   A == {x[2] : x \in T} \cup UNION Sets(t) IN
               LET k == [a \in A \ {0} |-> Kind(t, T, a)] IN
               {CHOOSE a \in DOMAIN k : k[a] = v : v \in {k[a] : a \in DOMAIN k}}
Only(m, R) == [m EXCEPT !.out = [q \in States(m) |-> SelectSeq(m.out[q], LAMBDA x : x[1] \in R \cup {0})]]
DenotesDfa(t0, m0) ==
  LET R == Kinds(t0, m0)  t == Keep(t0, R)  m == Only(m0, R)
      Nx(x, a) == <<TDelta(x[1], a), Delta(m, x[2], a)>>
  IN \A x \in JointFrom(<<{t}, m.ini>>, R, Nx) : TFinal(x[1]) <=> F(m, x[2])
DenotesNfa(t0, m0) ==
  LET R == Kinds(t0, m0)  t == Keep(t0, R)  m == Only(m0, R)
      Nx(x, a) == <<TDelta(x[1], a), NDelta(m, x[2], a)>>
  IN \A x \in JointFrom(<<{t}, NStart(m)>>, R, Nx) : TFinal(x[1]) <=> NF(m, x[2])

(* ------------------------------------ reading an expression ------------- *)
\* e.x: the characters (codes); e.A: the alphabet in use
Digit == 48..57
Upper == 65..90
Lower == 97..122
Word == Digit \cup Upper \cup Lower
Blank == {9, 32}
Escape(c, A) == CASE c = 100 -> Digit [] c = 68 -> A \ Digit
                  [] c = 119 -> Word  [] c = 87 -> A \ Word
                  [] c = 115 -> Blank [] c = 83 -> A \ Blank
                  [] c = 97 -> {7} [] c = 98 -> {8} [] c = 102 -> {12} [] c = 110 -> {10}
                  [] c = 114 -> {13} [] c = 116 -> {9} [] c = 118 -> {11}
                  [] OTHER -> {c}
At(e, i) == IF i <= Len(e.x) THEN e.x[i] ELSE 0
\* <<characters, next position>> of the members of a bracket from i on
RECURSIVE PMembers(_, _)
PMembers(e, i) ==
  IF At(e, i) \in {93, 0} THEN <<{}, i + 1>>
  ELSE IF At(e, i) = 92 THEN LET r == PMembers(e, i + 2) IN <<Escape(At(e, i + 1), e.A) \cup r[1], r[2]>>
  ELSE IF At(e, i + 1) = 45 /\ At(e, i + 2) # 93 THEN LET r == PMembers(e, i + 3) IN <<(At(e, i)..At(e, i + 2)) \cup r[1], r[2]>>
  ELSE LET r == PMembers(e, i + 1) IN <<{At(e, i)} \cup r[1], r[2]>>
PBracket(e, i) == IF At(e, i) = 94 THEN LET r == PMembers(e, i + 1) IN <<<<"set", e.A \ r[1]>>, r[2]>>
                  ELSE LET r == PMembers(e, i) IN <<<<"set", r[1]>>, r[2]>>
RECURSIVE Skip(_, _)
Skip(e, i) == IF At(e, i) = 32 THEN Skip(e, i + 1) ELSE i
RECURSIVE PNum(_, _, _)
PNum(e, i, v) == IF At(e, i) \in Digit THEN PNum(e, i + 1, 10 * v + At(e, i) - 48) ELSE <<v, i>>
\* <<m, n, next position>> of the repetition whose brace is at i
PTimes(e, i) ==
  LET a == Skip(e, i + 1)  m == PNum(e, a, 0)  b == Skip(e, m[2]) IN
  IF At(e, b) # 44 THEN <<m[1], m[1], b + 1>>
  ELSE LET c == Skip(e, b + 1)  n == PNum(e, c, 0)  d == Skip(e, n[2])
       IN <<m[1], IF n[2] = c THEN -1 ELSE n[1], d + 1>>
RECURSIVE PAlt(_, _), PCat(_, _), PQuant(_, _), PAtom(_, _)
PAtom(e, i) == CASE At(e, i) = 40 -> LET r == PAlt(e, i + 1) IN <<r[1], r[2] + 1>>
                 [] At(e, i) = 91 -> PBracket(e, i + 1)
                 [] At(e, i) = 92 -> <<<<"set", Escape(At(e, i + 1), e.A)>>, i + 2>>
                 [] OTHER -> <<<<"set", {At(e, i)}>>, i + 1>>
RECURSIVE Quants(_, _)
Quants(e, r) == LET c == At(e, r[2]) IN
  CASE c = 63 -> Quants(e, <<RepT(r[1], 0, 1), r[2] + 1>>)
    [] c = 42 -> Quants(e, <<RepT(r[1], 0, -1), r[2] + 1>>)
    [] c = 43 -> Quants(e, <<RepT(r[1], 1, -1), r[2] + 1>>)
    [] c = 123 -> LET q == PTimes(e, r[2]) IN Quants(e, <<RepT(r[1], q[1], q[2]), q[3]>>)
    [] OTHER -> r
PQuant(e, i) == Quants(e, PAtom(e, i))
PCat(e, i) == LET r == PQuant(e, i) IN
  IF At(e, r[2]) \in {0, 124, 41} THEN r
  ELSE LET s == PCat(e, r[2]) IN <<CatT(r[1], s[1]), s[2]>>
PAlt(e, i) == LET r == PCat(e, i) IN
  IF At(e, r[2]) = 124 THEN LET s == PAlt(e, r[2] + 1) IN <<<<"alt", r[1], s[1]>>, s[2]>> ELSE r
Read(x, A) == IF x = <<>> THEN Eps ELSE LET e == [x |-> x, A |-> A]  r == PAlt(e, 1) IN
              IF r[2] = Len(x) + 1 THEN r[1] ELSE Assert(FALSE, <<"not an expression", x>>)
(* ------------------------------------ what is an expression at all ------- *)
\* kinds of tokens: 1 "(", 2 ")", 3 quantifier, 4 "|", 5 a character, escape
\* or class, 6 an ill-formed one (reversed interval or bounds, empty class,
\* unknown escape); need: an operand has to start; d: open parentheses
RECURSIVE Form(_, _, _)
Form(k, need, d) ==
  IF k = <<>> THEN ~need /\ d = 0
  ELSE CASE Head(k) = 1 -> Form(Tail(k), TRUE, d + 1)
         [] Head(k) = 2 -> ~need /\ d > 0 /\ Form(Tail(k), FALSE, d - 1)
         [] Head(k) = 3 -> ~need /\ Form(Tail(k), FALSE, d)
         [] Head(k) = 4 -> ~need /\ Form(Tail(k), TRUE, d)
         [] Head(k) = 5 -> Form(Tail(k), FALSE, d)
         [] OTHER -> FALSE
IsExpression(k) == k = <<>> \/ Form(k, TRUE, 0)
=============================================================================
