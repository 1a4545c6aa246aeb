------------------------------- MODULE Shunting -------------------------------
(***************************************************************************)
(* Infix expressions over a table of operators.                            *)
(* A token is an integer: 1 "(", 2 ")", 2 + k the operator k of the table, *)
(* anything from 100 on an operand. T[k] = <<card, prec, right>>: operator *)
(* k takes card operands (1 or 2), right = 1 iff it is right associative.  *)
(* A unary operator is prefix where an operand has to start, otherwise     *)
(* postfix. Trees: <<operand>>, <<o, t>>, <<o, t, t>>.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences
LP == 1
RP == 2
IsOp(T, a) == a > 2 /\ a <= 2 + Len(T)
IsOperand(a) == a >= 100
Unary(T, a) == IsOp(T, a) /\ T[a - 2][1] = 1
Binary(T, a) == IsOp(T, a) /\ T[a - 2][1] = 2
\* a pending operator o1 takes its last operand before the operator o2 that comes next
Precedes(T, o1, o2) == LET p == T[o1 - 2] q == T[o2 - 2] IN IF q[3] = 1 THEN p[2] > q[2] ELSE p[2] >= q[2]
(* ------------------------------------------------- well-formed expressions *)
\* <<an operand has to start, open parentheses>> after w; <<>> if w cannot be continued
RECURSIVE Scan(_, _)
Scan(T, w) ==
  IF w = <<>> THEN <<TRUE, 0>>
  ELSE LET p == Scan(T, SubSeq(w, 1, Len(w) - 1)) a == w[Len(w)] IN
       CASE p = <<>> -> <<>>
         [] IsOperand(a) -> IF p[1] THEN <<FALSE, p[2]>> ELSE <<>>
         [] a = LP -> IF p[1] THEN <<TRUE, p[2] + 1>> ELSE <<>>
         [] a = RP -> IF p[1] \/ p[2] = 0 THEN <<>> ELSE <<FALSE, p[2] - 1>>
         [] Unary(T, a) -> p
         [] Binary(T, a) -> IF p[1] THEN <<>> ELSE <<TRUE, p[2]>>
         [] OTHER -> <<>>
WellFormed(T, w) == Scan(T, w) = <<FALSE, 0>>
(* ------------------------------------------------------------------ parsing *)
\* <<tree, next position>>; o: the operator whose last operand is parsed (0: none)
RECURSIVE Operand(_, _, _), Infix(_, _, _, _), More(_, _, _, _, _)
Operand(T, w, i) ==
  IF w[i] = LP THEN LET p == Infix(T, w, i + 1, 0) IN <<p[1], p[2] + 1>>
  ELSE IF IsOp(T, w[i]) THEN LET p == Infix(T, w, i + 1, w[i]) IN <<<<w[i], p[1]>>, p[2]>>
  ELSE <<<<w[i]>>, i + 1>>
Infix(T, w, i, o) == LET p == Operand(T, w, i) IN More(T, w, o, p[1], p[2])
More(T, w, o, left, i) ==
  IF i > Len(w) THEN <<left, i>>
  ELSE IF w[i] = RP THEN <<left, i>>
  ELSE IF o # 0 /\ (IF o # 0 THEN Precedes(T, o, w[i]) ELSE FALSE) THEN <<left, i>>
  ELSE IF Unary(T, w[i]) THEN More(T, w, o, <<w[i], left>>, i + 1)
  ELSE LET p == Infix(T, w, i + 1, w[i]) IN More(T, w, o, <<w[i], left, p[1]>>, p[2])
Parse(T, w) == Infix(T, w, 1, 0)[1]
RECURSIVE Post(_)
Post(t) == CASE Len(t) = 1 -> t [] Len(t) = 2 -> Append(Post(t[2]), t[1]) [] Len(t) = 3 -> Append(Post(t[2]) \o Post(t[3]), t[1])
\* fully parenthesized; a unary operator after its operand
RECURSIVE Shown(_)
Shown(t) == CASE Len(t) = 1 -> t
              [] Len(t) = 2 -> <<LP>> \o Shown(t[2]) \o <<RP, t[1]>>
              [] Len(t) = 3 -> <<LP>> \o Shown(t[2]) \o <<t[1]>> \o Shown(t[3]) \o <<RP>>
(* ------------------------------------------------------------------ machine *)
\* [stack, out, start]: the state of the two-stack algorithm; start: an operand has to start
Idle == [stack |-> <<>>, out |-> <<>>, start |-> TRUE]
PopOne(m) == [m EXCEPT !.out = Append(@, m.stack[Len(m.stack)]), !.stack = SubSeq(@, 1, Len(@) - 1)]
RECURSIVE PopFor(_, _, _), PopToParen(_), PopAll(_)
PopFor(T, m, a) == IF m.stack = <<>> THEN m
                   ELSE LET o == m.stack[Len(m.stack)] IN
                        IF IsOp(T, o) /\ (IF IsOp(T, o) THEN Precedes(T, o, a) ELSE FALSE) THEN PopFor(T, PopOne(m), a) ELSE m
PopToParen(m) == IF m.stack[Len(m.stack)] = LP THEN [m EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)] ELSE PopToParen(PopOne(m))
PopAll(m) == IF m.stack = <<>> THEN m ELSE PopAll(PopOne(m))
\* Patience = FALSE: a prefix operator pops pending operators as any other
Read(T, m, a, Patience) ==
  CASE IsOperand(a) -> [m EXCEPT !.out = Append(@, a), !.start = FALSE]
    [] a = LP -> [m EXCEPT !.stack = Append(@, a), !.start = TRUE]
    [] a = RP -> [PopToParen(m) EXCEPT !.start = FALSE]
    [] OTHER -> LET n == IF Unary(T, a) /\ m.start /\ Patience THEN m ELSE PopFor(T, m, a)
                    q == [n EXCEPT !.stack = Append(@, a)]
                IN IF Unary(T, a) /\ ~m.start /\ Patience THEN PopOne(q)
                   ELSE [q EXCEPT !.start = IF Unary(T, a) THEN @ ELSE TRUE]
(* ------------------------------------------------- values: fractions <<n, d>> *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Frac(n, d) == LET s == IF d < 0 THEN 0 - 1 ELSE 1 g == Gcd(Abs(n), Abs(d)) IN <<(s * n) \div g, (s * d) \div g>>
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN <<1, 1>>
             ELSE IF k > 0 THEN LET y == Pow(x, k - 1) IN Frac(x[1] * y[1], x[2] * y[2])
             ELSE LET y == Pow(x, k + 1) IN Frac(y[1] * x[2], y[2] * x[1])
\* the algebra: 3 sign +, 4 sign -, 5 ^, 6 *, 7 /, 8 +, 9 -; the operand 100 + v has the value v,
\* the operand 20000 + v the value v/8
Algebra == << <<1, 3, 1>>, <<1, 3, 1>>, <<2, 4, 1>>, <<2, 3, 0>>, <<2, 3, 0>>, <<2, 2, 0>>, <<2, 2, 0>> >>
RECURSIVE Value(_)
Value(t) ==
  IF Len(t) = 1 THEN IF t[1] < 20000 THEN <<t[1] - 100, 1>> ELSE Frac(t[1] - 20000, 8)
  ELSE LET x == Value(t[2]) IN
       IF Len(t) = 2 THEN (IF t[1] = 4 THEN <<0 - x[1], x[2]>> ELSE x)
       ELSE LET y == Value(t[3]) IN
            CASE t[1] = 5 -> IF y[2] = 1 THEN Pow(x, y[1]) ELSE Frac(1, 0)
              [] t[1] = 6 -> Frac(x[1] * y[1], x[2] * y[2])
              [] t[1] = 7 -> Frac(x[1] * y[2], x[2] * y[1])
              [] t[1] = 8 -> Frac(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
              [] t[1] = 9 -> Frac(x[1] * y[2] - y[1] * x[2], x[2] * y[2])
\* regular expressions: 3 *, 4 +, 5 ?, 6 concatenation, 7 |
RegexTable == << <<1, 4, 0>>, <<1, 4, 0>>, <<1, 3, 0>>, <<2, 2, 0>>, <<2, 1, 0>> >>
=============================================================================
