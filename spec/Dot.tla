---------------------------------- MODULE Dot ----------------------------------
(***************************************************************************)
(* The Graphviz language as far as graphs are exported to it. Texts are    *)
(* sequences of character codes. A token is <<kind, text>>: 0 identifier,  *)
(* 1 quoted string, 2 HTML string, 3 punctuation or arc.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Ch(c) == <<3, <<c>>>>
Arc(t) == t = <<3, <<45, 62>>>> \/ t = <<3, <<45, 45>>>>
GRAPH == <<103, 114, 97, 112, 104>>
DIGRAPH == <<100, 105, 103, 114, 97, 112, 104>>
NODE == <<110, 111, 100, 101>>
EDGE == <<101, 100, 103, 101>>
LABEL == <<108, 97, 98, 101, 108>>
SHAPE == <<115, 104, 97, 112, 101>>
CIRCLE == <<99, 105, 114, 99, 108, 101>>
DOUBLE == <<100, 111, 117, 98, 108, 101>>
(* ------------------------------------------------------------- statements *)
RECURSIVE Split(_, _, _)
\* the statements of the tokens, cut at ";" outside of brackets
Split(ts, cur, depth) ==
  IF ts = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE LET t == Head(ts) IN
       IF t = Ch(59) /\ depth = 0 THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Split(Tail(ts), <<>>, 0)
       ELSE Split(Tail(ts), Append(cur, t), depth + (IF t = Ch(91) THEN 1 ELSE IF t = Ch(93) THEN -1 ELSE 0))
\* the body of "graph name { body }"; <<<<9, <<>>>>>> if there is none
Malformed == <<<<9, <<>>>>>>
Body(ts) == LET n == Len(ts) IN
  IF n < 4 THEN Malformed
  ELSE IF ts[1][1] = 0 /\ ts[2][1] = 0 /\ ts[3] = Ch(123) /\ ts[n] = Ch(125) THEN SubSeq(ts, 4, n - 1) ELSE Malformed
\* the attributes <<key, kind, text>> of "[k = v; ...]", from position i
RECURSIVE AttrsFrom(_, _)
AttrsFrom(s, i) ==
  IF i > Len(s) THEN Malformed
  ELSE IF s[i] = Ch(93) THEN (IF i = Len(s) THEN <<>> ELSE Malformed)
  ELSE IF s[i] \in {Ch(59), Ch(44)} THEN AttrsFrom(s, i + 1)
  ELSE IF i + 3 > Len(s) THEN Malformed
  ELSE IF s[i][1] = 0 /\ s[i + 1] = Ch(61) /\ s[i + 2][1] \in {0, 1, 2}
       THEN <<<<s[i][2], s[i + 2][1], s[i + 2][2]>>>> \o AttrsFrom(s, i + 3) ELSE Malformed
Attrs(s, i) == IF i > Len(s) THEN <<>> ELSE IF s[i] = Ch(91) THEN AttrsFrom(s, i + 1) ELSE Malformed
BadAttrs(a) == \E k \in 1..Len(a) : a[k] \in {Malformed[1]}
IsEdge(s) == Len(s) >= 3 /\ (IF Len(s) >= 3 THEN Arc(s[2]) ELSE FALSE)
IsDefault(s) == ~IsEdge(s) /\ s[1][2] \in {GRAPH, NODE, EDGE}
IsVertex(s) == ~IsEdge(s) /\ ~IsDefault(s)
StatementOK(s) == /\ s[1][1] \in {0, 1} /\ (IsEdge(s) => s[3][1] \in {0, 1})
                  /\ ~BadAttrs(Attrs(s, IF IsEdge(s) THEN 4 ELSE 2))
(* ----------------------------------------------------------------- labels *)
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Opening == {<<98>>, <<98, 114>>, <<98, 114, 47>>, <<102, 111, 110, 116>>, <<104, 114>>, <<105>>, <<105, 109, 103>>, <<111>>, <<115>>, <<115, 117, 98>>,
            <<115, 117, 112>>, <<116, 97, 98, 108, 101>>, <<116, 100>>, <<116, 114>>, <<117>>, <<118, 114>>}
Single == {<<98, 114>>, <<98, 114, 47>>}
Closing == {<<47>> \o t : t \in Opening \ Single}
At(s, i) == IF i > Len(s) THEN 0 ELSE s[i]
Blank(c) == c \in {9, 10, 11, 12, 13, 32}
RECURSIVE SkipBlank(_, _), NameEnd(_, _), ToGt(_, _)
SkipBlank(s, i) == IF Blank(At(s, i)) THEN SkipBlank(s, i + 1) ELSE i
NameEnd(s, i) == IF Blank(At(s, i)) \/ At(s, i) \in {0, 62} THEN i ELSE NameEnd(s, i + 1)
ToGt(s, i) == IF At(s, i) \in {0, 62} THEN i ELSE ToGt(s, i + 1)
\* the position after the supported HTML tag at i, 0 if there is none
TagAt(s, i) ==
  IF At(s, i) # 60 THEN 0
  ELSE LET a == SkipBlank(s, i + 1)
           b == NameEnd(s, a)
           name == [k \in 1..(b - a) |-> Lower(s[a + k - 1])]
           c == IF name \in Opening THEN ToGt(s, b) ELSE IF name \in Closing THEN SkipBlank(s, b) ELSE 0
       IN IF c > 0 /\ (IF c > 0 THEN At(s, c) = 62 ELSE FALSE) THEN c + 1 ELSE 0
Hex(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Special == {38, 60, 62, 91, 93, 123, 125}
EscapedChar(c) == CASE c \in Special -> <<38, 35>> \o Digits(c) \o <<59>>
                    [] c = 10 -> <<92, 110>> [] c = 9 -> <<92, 116>> [] c = 13 -> <<92, 114>>
                    [] c < 32 /\ c \notin {9, 10, 13} -> <<92, 120, Hex(c \div 16), Hex(c % 16), 59>>
                    [] OTHER -> <<c>>
\* the HTML string for a label
RECURSIVE Escaped(_, _)
Escaped(s, i) == IF i > Len(s) THEN <<>>
                 ELSE LET j == TagAt(s, i) IN
                      IF j > 0 THEN SubSeq(s, i, j - 1) \o Escaped(s, j) ELSE EscapedChar(s[i]) \o Escaped(s, i + 1)
(* ---------------------------------------------------------------- reading *)
RECURSIVE EntityEnd(_, _)
EntityEnd(s, i) == IF At(s, i) >= 48 /\ At(s, i) <= 57 THEN EntityEnd(s, i + 1) ELSE i
RECURSIVE Number(_, _, _)
Number(s, i, j) == IF i >= j THEN 0 ELSE 10 * Number(s, i, j - 1) + s[j - 1] - 48
\* the named entities every reader knows: lt gt amp quot
Named == {<<<<108, 116, 59>>, 60>>, <<<<103, 116, 59>>, 62>>, <<<<97, 109, 112, 59>>, 38>>, <<<<113, 117, 111, 116, 59>>, 34>>}
NamedAt(s, i) == {x \in Named : i + Len(x[1]) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(x[1]) - 1) = x[1]}
RECURSIVE Unescaped(_, _)
Unescaped(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET j == EntityEnd(s, i + 2) IN
       IF s[i] = 38 /\ At(s, i + 1) = 35 /\ j > i + 2 /\ At(s, j) = 59 THEN <<Number(s, i + 2, j)>> \o Unescaped(s, j + 1)
       ELSE IF s[i] = 38 /\ NamedAt(s, i + 1) # {}
       THEN LET x == CHOOSE y \in NamedAt(s, i + 1) : TRUE IN <<x[2]>> \o Unescaped(s, i + 1 + Len(x[1]))
       ELSE <<s[i]>> \o Unescaped(s, i + 1)
(* A line of a text written by hand: at most one statement, closed by ";". *)
Digit(c) == c >= 48 /\ c <= 57
Integer(t) == t[1] = 0 /\ \A k \in 1..Len(t[2]) : Digit(t[2][k])
LineStatement(ts) == IF ts = <<>> THEN <<>> ELSE IF ts[Len(ts)] = Ch(59) THEN SubSeq(ts, 1, Len(ts) - 1) ELSE <<>>
LineIsEdge(s) == IF Len(s) >= 3 THEN IsEdge(s) /\ Integer(s[1]) /\ Integer(s[3]) ELSE FALSE
LineIsVertex(s) == IF Len(s) >= 1 THEN ~LineIsEdge(s) /\ Integer(s[1]) ELSE FALSE
\* the attributes <<key, value>> that a line sets
LineAttrs(s) == LET a == Attrs(s, IF LineIsEdge(s) THEN 4 ELSE 2) IN {<<a[k][1], Unescaped(a[k][3], 1)>> : k \in 1..Len(a)}
=============================================================================
