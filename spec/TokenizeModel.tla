---------------------------- MODULE TokenizeModel ----------------------------
(***************************************************************************)
(* The tokenizer's loop over an arbitrary string and pattern. The matcher  *)
(* delivers matches left to right, among them empty ones; the loop reports *)
(* what lies between two matches and skips empty pieces.                   *)
(***************************************************************************)
EXTENDS Tokenize
CONSTANTS L, MaxLen, MaxAlt, SkipRest
VARIABLES s, P, at, last, pieces, done
vars == <<s, P, at, last, pieces, done>>
Words(n) == UNION {[1..k -> L] : k \in 0..n}
Alts == {<<0, w>> : w \in Words(2)} \cup {<<k, <<c>>>> : k \in {1, 2}, c \in L} \cup {<<1, <<1, 2>>>>}
Init == /\ s \in Words(MaxLen) /\ P \in UNION {[1..k -> Alts] : k \in 1..MaxAlt}
        /\ at = 0 /\ last = <<-1, -1>> /\ pieces = <<>> /\ done = FALSE
\* the first alternative that matches at i, empty or not: its end, -1 none
RECURSIVE First(_, _, _)
First(p, x, i) == IF p = <<>> THEN -1 ELSE LET j == EndOf(x, Head(p), i) IN IF j >= i THEN j ELSE First(Tail(p), x, i)
\* the next match <<start, end>> from i on; at the end of an empty match the match there must advance
RECURSIVE NextMatch(_, _)
NextMatch(i, advance) ==
  IF i > Len(s) THEN <<-1, -1>>
  ELSE LET j == IF advance THEN (LET k == Match(P, s, i) IN IF k > i THEN k ELSE -1) ELSE First(P, s, i) IN
       IF j >= i THEN <<i, j>> ELSE NextMatch(i + 1, FALSE)
Piece(k, i, j) == IF i < j THEN <<<<k, i, j>>>> ELSE <<>>
Advance == LET m == NextMatch(at, last[1] = last[2] /\ last[2] = at) IN
  /\ ~done
  /\ IF m[1] = -1 THEN done' = TRUE /\ pieces' = pieces \o (IF SkipRest THEN <<>> ELSE Piece(0, at, Len(s))) /\ UNCHANGED <<at, last>>
     ELSE /\ pieces' = pieces \o Piece(0, at, m[1]) \o Piece(1, m[1], m[2])
          /\ at' = m[2] /\ last' = m /\ UNCHANGED done
  /\ UNCHANGED <<s, P>>
Next == Advance
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>done
Done == done => PiecesOK(P, s, pieces)
\* while running: what was reported so far is the input up to the cursor
Prefix == ~done => \A k \in 1..Len(pieces) : pieces[k][2] = (IF k = 1 THEN 0 ELSE pieces[k - 1][3]) /\ pieces[k][3] <= at
=============================================================================
