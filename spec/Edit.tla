-------------------------------- MODULE Edit --------------------------------
(***************************************************************************)
(* Edit distances of words (sequences), by the tables of the distances     *)
(* between their prefixes.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
MinOf(a, b) == IF a < b THEN a ELSE b
\* Row by row: t[i + 1][j + 1] is the distance of the first i and the first j symbols.
\* Sub, Swap: whether substitutions and transpositions are allowed
NextCell(x, y, t, row, i, j, Sub, Swap) ==
  IF j = 0 THEN i
  ELSE LET del == t[i][j + 1] + 1
           ins == row[j] + 1
           sub == IF x[i] = y[j] THEN t[i][j] ELSE IF Sub THEN t[i][j] + 1 ELSE i + j
           swp == IF Swap /\ i > 1 /\ j > 1 /\ x[i] = y[j - 1] /\ x[i - 1] = y[j] THEN t[i - 1][j - 1] + 1 ELSE i + j
       IN MinOf(MinOf(del, ins), MinOf(sub, swp))
Distance(x, y, Sub, Swap) ==
  LET RECURSIVE Row(_, _, _, _)
      Row(t, row, i, j) == IF j > Len(y) THEN row ELSE Row(t, Append(row, NextCell(x, y, t, row, i, j, Sub, Swap)), i, j + 1)
      RECURSIVE Table(_, _)
      Table(t, i) == IF i > Len(x) THEN t ELSE Table(Append(t, Row(t, <<>>, i, 0)), i + 1)
      T == Table(<<[j \in 1..Len(y) + 1 |-> j - 1]>>, 1)
  IN T[Len(x) + 1][Len(y) + 1]
Lev(x, y) == Distance(x, y, TRUE, FALSE)
Lcs(x, y) == Distance(x, y, FALSE, FALSE)
Osa(x, y) == Distance(x, y, TRUE, TRUE)
\* the words one operation away
Del(w, i) == SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, Len(w))
Ins(w, i, a) == SubSeq(w, 1, i) \o <<a>> \o SubSeq(w, i + 1, Len(w))
Edits(w, L, Sub) == {Del(w, i) : i \in 1..Len(w)} \cup {Ins(w, i, a) : i \in 0..Len(w), a \in L}
                    \cup (IF Sub THEN {[w EXCEPT ![i] = a] : i \in 1..Len(w), a \in L} \ {w} ELSE {})
=============================================================================
