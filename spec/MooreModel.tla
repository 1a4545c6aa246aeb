----------------------------- MODULE MooreModel -----------------------------
(* The subset construction, one unprocessed set at a time in any order, on every small automaton:
   it ends, and what it builds determinizes. *)
EXTENDS Moore, TLC
CONSTANTS N, L, AnyIni
VARIABLES n, complete, num, tr, todo
vars == <<n, complete, num, tr, todo>>
T0 == {<<q, a, r>> : q \in 1..N, a \in L \cup {0}, r \in 1..N} \ {<<q, 0, q>> : q \in 1..N}
Lay(T) == [q \in 1..N |-> LET S == {<<t[2], t[3]>> : t \in {x \in T : x[1] = q}} IN
             CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => (s[i][1] < s[j][1] \/ (s[i][1] = s[j][1] /\ s[i][2] < s[j][2]))]
Init == \E T \in SUBSET T0, f \in SUBSET (1..N), i \in IF AnyIni THEN SUBSET (1..N) ELSE {{1}}, c \in BOOLEAN :
          /\ n = [out |-> Lay(T), ini |-> i, fin |-> f] /\ complete = c
          /\ num = (NStart(n) :> 1) /\ tr = {} /\ todo = {NStart(n)}
Of(S) == UNION {OutSyms(n, q) : q \in S} \ {0}
Targets(S) == {<<a, NDelta(n, S, a)>> : a \in IF complete THEN Letters(n) ELSE Of(S)}
RECURSIVE Number(_, _, _)
Number(f, S, k) == IF S = {} THEN f ELSE LET x == CHOOSE y \in S : TRUE IN Number(f @@ (x :> k), S \ {x}, k + 1)
Next == \E S \in todo :
          LET ts == Targets(S)  new == {t[2] : t \in ts} \ DOMAIN num
              num2 == Number(num, new, Cardinality(DOMAIN num) + 1) IN
          /\ num' = num2 /\ todo' = (todo \ {S}) \cup new
          /\ tr' = tr \cup {<<num2[S], t[1], num2[t[2]]>> : t \in ts}
          /\ UNCHANGED <<n, complete>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Built == [out |-> [q \in 1..Cardinality(DOMAIN num) |-> LET S == {<<t[2], t[3]>> : t \in {x \in tr : x[1] = q}} IN
                     CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => s[i] # s[j]],
          ini |-> 1, fin |-> {num[S] : S \in {x \in DOMAIN num : NF(n, x)}}]
Done == todo = {}
Ends == <>Done
BuiltOK == Done => Determinizes(n, Built, complete)
WordsOK == Done => \A w \in WordsUpTo(L, 4) : NAccepts(n, w) <=> Accepts(Built, w)
=============================================================================
