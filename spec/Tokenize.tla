------------------------------- MODULE Tokenize -------------------------------
(***************************************************************************)
(* Splitting strings (sequences of character codes) into pieces.           *)
(* A pattern is a sequence of alternatives, tried in order: <<0, word>>    *)
(* the word itself; <<1, set>> one or more characters of the set, as many  *)
(* as possible; <<2, set>> the same, possibly none.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Sub(s, i, j) == SubSeq(s, i + 1, j)     \* positions count from 0: the piece s[i:j]
RECURSIVE Many(_, _, _)
Many(s, A, i) == IF i < Len(s) /\ (IF i < Len(s) THEN s[i + 1] \in A ELSE FALSE) THEN Many(s, A, i + 1) ELSE i
Set(q) == {q[k] : k \in 1..Len(q)}
\* the end of the match of an alternative at position i, -1: none
EndOf(s, p, i) ==
  IF p[1] = 0 THEN IF i + Len(p[2]) <= Len(s) /\ Sub(s, i, i + Len(p[2])) = p[2] THEN i + Len(p[2]) ELSE -1
  ELSE LET j == Many(s, Set(p[2]), i) IN IF p[1] = 1 /\ j = i THEN -1 ELSE j
\* the end of the first alternative's match at i that is not empty (i: none)
RECURSIVE Match(_, _, _)
Match(P, s, i) == IF P = <<>> THEN i ELSE LET j == EndOf(s, Head(P), i) IN IF j > i THEN j ELSE Match(Tail(P), s, i)
\* the non-empty matches <<start, end>>, left to right
RECURSIVE Matches(_, _, _)
Matches(P, s, i) == IF i >= Len(s) THEN <<>>
                    ELSE LET j == Match(P, s, i) IN IF j > i THEN <<<<i, j>>>> \o Matches(P, s, j) ELSE Matches(P, s, i + 1)
Nullable(P) == \E k \in 1..Len(P) : P[k][1] = 2 \/ P[k][2] = <<>>
\* pieces <<matched, start, end>>
PiecesOK(P, s, ps) ==
  /\ \A k \in 1..Len(ps) : ps[k][2] < ps[k][3] /\ ps[k][2] = (IF k = 1 THEN 0 ELSE ps[k - 1][3])
  /\ IF ps = <<>> THEN s = <<>> ELSE ps[Len(ps)][3] = Len(s)
  /\ LET m == SelectSeq(ps, LAMBDA p : p[1] = 1) IN [k \in 1..Len(m) |-> <<m[k][2], m[k][3]>>] = Matches(P, s, 0)
  /\ Nullable(P) \/ \A k \in 1..(Len(ps) - 1) : ps[k][1] = 1 \/ ps[k + 1][1] = 1
(* ---------------------------------------------------------------- algebra *)
Space == {9, 10, 11, 12, 13, 32}
NumChar(c) == (c >= 48 /\ c <= 57) \/ c = 46
OpChar == {94, 42, 47, 43, 45}
\* tokens <<0, n, d>> the number n / d; <<1, c>> an operator or parenthesis; <<2, c>> a sign; <<3, 0>> not an expression
RECURSIVE Num(_, _, _, _, _), AlgFrom(_, _, _)
Num(s, i, n, d, dot) == \* <<n, d, next>>
  IF i > Len(s) THEN <<n, d, i>>
  ELSE IF s[i] = 46 THEN Num(s, i + 1, n, d, TRUE)
  ELSE IF NumChar(s[i]) THEN Num(s, i + 1, 10 * n + s[i] - 48, IF dot THEN 10 * d ELSE d, dot)
  ELSE <<n, d, i>>
AlgFrom(s, i, start) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] \in Space THEN AlgFrom(s, i + 1, start)
  ELSE IF s[i] \in {40, 41} THEN <<<<1, s[i]>>>> \o AlgFrom(s, i + 1, s[i] = 40)
  ELSE IF NumChar(s[i]) THEN LET r == Num(s, i, 0, 1, FALSE) IN <<<<0, r[1], r[2]>>>> \o AlgFrom(s, r[3], FALSE)
  ELSE IF start THEN (IF s[i] \in {43, 45} THEN <<<<2, s[i]>>>> \o AlgFrom(s, i + 1, TRUE) ELSE <<<<3, 0>>>>)
  ELSE <<<<1, s[i]>>>> \o AlgFrom(s, i + 1, TRUE)
Algebraic(s) == AlgFrom(s, 1, TRUE)
SameToken(a, b) == IF a[1] = 0 /\ b[1] = 0 THEN a[2] * b[3] = b[2] * a[3] ELSE a = b
SameTokens(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : SameToken(x[k], y[k])
(* --------------------------------------------------- regular expressions *)
At(s, i) == IF i > Len(s) THEN 0 ELSE s[i]
RECURSIVE CloseBracket(_, _), CloseBrace(_, _)
CloseBracket(s, i) == IF s[i] = 92 THEN CloseBracket(s, i + 2) ELSE IF s[i] = 93 THEN i ELSE CloseBracket(s, i + 1)
CloseBrace(s, i) == IF s[i] = 125 THEN i ELSE CloseBrace(s, i + 1)
RECURSIVE Lexemes(_, _)
Lexemes(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET j == CASE s[i] = 91 -> CloseBracket(s, i + 1) [] s[i] = 123 -> CloseBrace(s, i) [] s[i] = 92 -> i + 1 [] OTHER -> i
       IN <<SubSeq(s, i, j)>> \o Lexemes(s, j + 1)
Quantifier(t) == t[1] \in {42, 43, 63, 123}
EndsOperand(t) == t[1] \notin {40, 124}
StartsOperand(t) == t[1] \notin {41, 124} /\ ~Quantifier(t)
RECURSIVE WithCat(_, _)
WithCat(ts, cat) == IF Len(ts) < 2 THEN ts
                    ELSE <<ts[1]>> \o (IF EndsOperand(ts[1]) /\ StartsOperand(ts[2]) THEN <<<<cat>>>> ELSE <<>>) \o WithCat(Tail(ts), cat)
RegexTokens(s, cat) == WithCat(Lexemes(s, 1), cat)
\* an escaped word is the word as a regular expression: the characters it denotes, <<-1>> if it denotes more than one word
Special == {40, 41, 42, 43, 46, 63, 91, 92, 93, 94, 36, 123, 124, 125}
RECURSIVE Literal(_)
Literal(x) == IF x = <<>> THEN <<>>
              ELSE IF x[1] = 92 THEN (IF Len(x) = 1 THEN <<-1>> ELSE IF x[2] \in Special THEN <<x[2]>> \o Literal(SubSeq(x, 3, Len(x))) ELSE <<-1>>)
              ELSE IF x[1] \in Special THEN <<-1>> ELSE <<x[1]>> \o Literal(Tail(x))
=============================================================================
