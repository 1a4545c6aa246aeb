-------------------------------- MODULE DotModel --------------------------------
(***************************************************************************)
(* A graph is built, exported line by line and read back line by line.     *)
(* The reader scans the characters of a line's attributes: it finds each   *)
(* key, then a quoted string up to the next quote or an HTML string up to  *)
(* its closing bracket, tags inside it skipped. Escape = FALSE: labels are *)
(* written as they are.                                                    *)
(***************************************************************************)
EXTENDS Dot
CONSTANTS Chars, MaxWord, MaxV, MaxE, Escape
VARIABLES nv, es, lab, col, lines, rv, re, rlab, rcol, phase
vars == <<nv, es, lab, col, lines, rv, re, rlab, rcol, phase>>
Words == UNION {[1..k -> Chars] : k \in 0..MaxWord}
Plain == {w \in Words : \A i \in 1..Len(w) : w[i] \notin {34, 38, 92}}
Init == /\ nv = 0 /\ es = <<>> /\ lab = <<>> /\ col = <<>> /\ lines = <<>> /\ rv = 0 /\ re = <<>> /\ rlab = <<>> /\ rcol = <<>> /\ phase = "build"
\* one label and one other attribute of arbitrary text, on the last element only: elements do not share text
AddVertex(a, b) == phase = "build" /\ nv < MaxV /\ es = <<>> /\ nv' = nv + 1 /\ lab' = Append(lab, a) /\ col' = Append(col, b) /\ UNCHANGED <<es, lines, rv, re, rlab, rcol, phase>>
AddEdge(u, v) == phase = "build" /\ Len(es) < MaxE /\ es' = Append(es, <<u, v>>) /\ UNCHANGED <<nv, lab, col, lines, rv, re, rlab, rcol, phase>>
Text(a, b) == <<91, 99, 61, 34>> \o b \o <<34, 59, 32>> \o LABEL \o <<61, 60>> \o (IF Escape THEN Escaped(a, 1) ELSE a) \o <<62, 93, 59>>
Export == /\ phase = "build" /\ phase' = "read"
          /\ lines' = [i \in 1..(nv + Len(es)) |-> IF i <= nv THEN <<"v", i, 0, Text(lab[i], col[i])>> ELSE <<"e", es[i - nv][1], es[i - nv][2], <<>>>>]
          /\ UNCHANGED <<nv, es, lab, col, rv, re, rlab, rcol>>
Letter(c) == (c >= 97 /\ c <= 122)
RECURSIVE KeyEnd(_, _), ToQuote(_, _), HtmlEnd(_, _), Find(_, _)
KeyEnd(s, i) == IF Letter(At(s, i)) THEN KeyEnd(s, i + 1) ELSE i
ToQuote(s, i) == IF At(s, i) \in {0, 34} THEN i ELSE ToQuote(s, i + 1)
\* the position of the bracket that closes the HTML string, 0: none
HtmlEnd(s, i) == IF At(s, i) = 0 THEN 0 ELSE IF s[i] = 62 THEN i
                 ELSE IF s[i] = 60 THEN (IF At(s, ToGt(s, i)) = 62 THEN HtmlEnd(s, ToGt(s, i) + 1) ELSE 0)
                 ELSE HtmlEnd(s, i + 1)
\* the attributes <<key, value>> from position i
Find(s, i) ==
  IF i > Len(s) THEN {}
  ELSE IF ~Letter(s[i]) THEN Find(s, i + 1)
  ELSE LET k == KeyEnd(s, i) IN
       IF At(s, k) # 61 THEN Find(s, i + 1)
       ELSE IF At(s, k + 1) = 34 /\ At(s, ToQuote(s, k + 2)) = 34
            THEN {<<SubSeq(s, i, k - 1), Unescaped(SubSeq(s, k + 2, ToQuote(s, k + 2) - 1), 1)>>} \cup Find(s, ToQuote(s, k + 2) + 1)
       ELSE IF At(s, k + 1) = 60 /\ HtmlEnd(s, k + 2) > 0
            THEN {<<SubSeq(s, i, k - 1), Unescaped(SubSeq(s, k + 2, HtmlEnd(s, k + 2) - 1), 1)>>} \cup Find(s, HtmlEnd(s, k + 2) + 1)
       ELSE Find(s, i + 1)
\* between the brackets: the last closing bracket of the line ends the attributes
LastBracket(s) == CHOOSE i \in 1..Len(s) : s[i] = 93 /\ \A j \in (i + 1)..Len(s) : s[j] # 93
Value(s, key) == LET m == {p \in Find(SubSeq(s, 2, LastBracket(s) - 1), 1) : p[1] = key} IN IF m = {} THEN <<-1>> ELSE (CHOOSE p \in m : TRUE)[2]
ReadLine == /\ phase = "read" /\ lines # <<>> /\ lines' = Tail(lines)
            /\ LET x == Head(lines) IN
               IF x[1] = "v" THEN rv' = rv + 1 /\ rlab' = Append(rlab, Value(x[4], LABEL)) /\ rcol' = Append(rcol, Value(x[4], <<99>>)) /\ UNCHANGED re
               ELSE re' = Append(re, <<x[2], x[3]>>) /\ UNCHANGED <<rv, rlab, rcol>>
            /\ UNCHANGED <<nv, es, lab, col, phase>>
Next == (\E a \in Words, b \in Plain : AddVertex(a, b)) \/ (\E u, v \in 1..nv : AddEdge(u, v)) \/ Export \/ ReadLine
Spec == Init /\ [][Next]_vars
RoundTrip == phase = "read" /\ lines = <<>> => rv = nv /\ re = es /\ rlab = lab /\ rcol = col
\* no character that would end the HTML string or the line is left in it, but in tags
Safe == \A i \in 1..Len(lab) : LET x == Escaped(lab[i], 1) IN Unescaped(x, 1) = lab[i] /\ HtmlEnd(x \o <<62>>, 1) = Len(x) + 1
=============================================================================
