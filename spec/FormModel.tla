------------------------------ MODULE FormModel ------------------------------
(***************************************************************************)
(* Which sequences of tokens are regular expressions: the scan of Regex    *)
(* agrees with the grammar                                                 *)
(*   alt ::= cat | cat "|" alt      cat ::= q | q cat                      *)
(*   q ::= atom | q quantifier      atom ::= token | "(" alt ")"           *)
(* and the two-stack compiler (which only counts operands) refuses all the *)
(* others. Eager = TRUE: an unmatched "(" is put out as an operand.        *)
(***************************************************************************)
EXTENDS Regex
CONSTANTS MaxLen, Eager
VARIABLE k
Front(s) == SubSeq(s, 1, Len(s) - 1)
RECURSIVE IsAlt(_), IsCat(_), IsQ(_), IsAtom(_)
IsAtom(s) == IF Len(s) = 1 THEN s[1] = 5 ELSE Len(s) > 2 /\ s[1] = 1 /\ s[Len(s)] = 2 /\ IsAlt(SubSeq(s, 2, Len(s) - 1))
IsQ(s) == IF s = <<>> THEN FALSE ELSE IsAtom(s) \/ (s[Len(s)] = 3 /\ IsQ(Front(s)))
IsCat(s) == IsQ(s) \/ \E i \in 1..Len(s) - 1 : IsQ(SubSeq(s, 1, i)) /\ IsCat(SubSeq(s, i + 1, Len(s)))
IsAlt(s) == IsCat(s) \/ \E i \in 2..Len(s) - 1 : s[i] = 4 /\ IsCat(SubSeq(s, 1, i - 1)) /\ IsAlt(SubSeq(s, i + 1, Len(s)))
(* the compiler: 7 is the inserted concatenation, 8 a quantifier in braces, which is put out at once *)
RECURSIVE Catify(_, _)
Catify(s, need) ==
  IF s = <<>> THEN <<>>
  ELSE LET a == Head(s) IN (IF need /\ a \in {1, 5, 6} THEN <<7>> ELSE <<>>) \o <<a>> \o Catify(Tail(s), a \notin {1, 4})
Prec(o) == CASE o = 3 -> 4 [] o = 7 -> 2 [] o = 4 -> 1 [] OTHER -> 0
\* m: <<stack, operands, an operand is expected, failed>>
Out(m, o) == LET n == CASE o \in {4, 7} -> 2 [] o \in {3, 8} -> 1 [] OTHER -> 0 IN
             IF m[2] < n \/ o = 6 THEN [m EXCEPT ![4] = TRUE] ELSE [m EXCEPT ![2] = @ - n + 1]
Pop(m) == Out([m EXCEPT ![1] = Front(@)], m[1][Len(m[1])])
RECURSIVE PopOver(_, _), PopTo(_), Drain(_), Compile(_, _)
PopOver(m, a) == IF m[1] = <<>> \/ m[4] THEN m ELSE IF Prec(m[1][Len(m[1])]) >= Prec(a) THEN PopOver(Pop(m), a) ELSE m
PopTo(m) == IF m[4] THEN m ELSE IF m[1] = <<>> THEN [m EXCEPT ![4] = TRUE] ELSE IF m[1][Len(m[1])] = 1 THEN [m EXCEPT ![1] = Front(@)] ELSE PopTo(Pop(m))
Drain(m) == IF m[1] = <<>> \/ m[4] THEN m ELSE IF m[1][Len(m[1])] = 1 /\ ~Eager THEN [m EXCEPT ![4] = TRUE] ELSE Drain(Pop(m))
Compile(m, s) ==
  IF s = <<>> \/ m[4] THEN m
  ELSE LET a == Head(s) IN
       Compile(CASE a = 1 -> [m EXCEPT ![1] = Append(@, 1), ![3] = TRUE]
                 [] a = 2 -> [PopTo(m) EXCEPT ![3] = FALSE]
                 [] a = 3 -> IF m[3] THEN [m EXCEPT ![1] = Append(@, 3), ![3] = TRUE] ELSE Out(PopOver(m, 3), 3)
                 [] a \in {4, 7} -> LET n == PopOver(m, a) IN [n EXCEPT ![1] = Append(@, a), ![3] = TRUE]
                 [] OTHER -> [Out(m, a) EXCEPT ![3] = FALSE], Tail(s))
Accepted(s) == s = <<>> \/ LET m == Drain(Compile(<<<<>>, 0, TRUE, FALSE>>, Catify(s, FALSE))) IN ~m[4] /\ m[2] = 1
\* any of the quantifiers in braces
Braced(s) == {[i \in 1..Len(s) |-> IF i \in B THEN 8 ELSE s[i]] : B \in SUBSET {i \in 1..Len(s) : s[i] = 3}}
Init == k = <<>>
Next == Len(k) < MaxLen /\ \E a \in 1..6 : k' = Append(k, a)
Spec == Init /\ [][Next]_k
Grammar == IsExpression(k) <=> k = <<>> \/ IsAlt(k)
Refuses == \A s \in Braced(k) : Accepted(s) <=> IsExpression(k)
=============================================================================
