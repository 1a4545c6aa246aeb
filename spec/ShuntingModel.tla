---------------------------- MODULE ShuntingModel ----------------------------
(***************************************************************************)
(* The two-stack machine reads an arbitrary well-formed expression, token  *)
(* by token, under an arbitrary table of NBin binary and NUn unary         *)
(* operators; whenever the expression could end, emptying the stack gives  *)
(* the postfix form of the tree that the recursive grammar parses.         *)
(***************************************************************************)
EXTENDS Shunting, FiniteSets
CONSTANTS NBin, NUn, MaxPrec, MaxLen, Patience
VARIABLES T, w, m
vars == <<T, w, m>>
Ops == 3..(2 + NBin + NUn)
Init == /\ T \in [1..(NBin + NUn) -> {2} \X (1..MaxPrec) \X {0, 1}]
        /\ \A k \in 1..(NBin + NUn) : (k > NBin) => T[k][3] = 1
        /\ w = <<>> /\ m = Idle
\* the first NBin operators are binary, the others unary
Tab == [k \in DOMAIN T |-> IF k <= NBin THEN T[k] ELSE <<1, T[k][2], T[k][3]>>]
Get(a) == /\ Scan(Tab, Append(w, a)) # <<>> /\ Len(w) < MaxLen
          /\ w' = Append(w, a) /\ m' = Read(Tab, m, a, Patience) /\ UNCHANGED T
Next == Get(LP) \/ Get(RP) \/ Get(100 + Len(w)) \/ \E a \in Ops : Get(a)
Spec == Init /\ [][Next]_vars
Complete == WellFormed(Tab, w)
Agrees == Complete => PopAll(m).out = Post(Parse(Tab, w))
Count(s, a) == Cardinality({i \in 1..Len(s) : s[i] = a})
IsTok(a) == a # LP /\ a # RP
Only(s, P(_)) == SelectSeq(s, P)
Lossless == Complete => LET o == PopAll(m).out IN
  /\ Only(o, IsOperand) = Only(w, IsOperand)
  /\ Len(o) = Len(Only(w, IsTok)) /\ \A a \in Ops : Count(o, a) = Count(w, a)
StartOK == m.start = Scan(Tab, w)[1]
\* binary operators without parentheses: the tree is the one that respects every pair of neighbours
RECURSIVE Local(_)
Local(t) == Len(t) = 1 \/ (/\ Local(t[2]) /\ Local(t[3])
                           /\ Len(t[2]) = 3 => Precedes(Tab, t[2][1], t[1])
                           /\ Len(t[3]) = 3 => ~Precedes(Tab, t[1], t[3][1]))
Respects == Complete /\ (\A i \in 1..Len(w) : IsOperand(w[i]) \/ Binary(Tab, w[i])) => Local(Parse(Tab, w))
\* parentheses around the whole change nothing; the shown form parses to the same tree
\* no binary operator binds its left operand tighter than a unary operator binds its operand
Tight == \A k \in 1..NBin, j \in (NBin + 1)..(NBin + NUn) : ~Precedes(Tab, k + 2, j + 2)
Stable == Complete => /\ Parse(Tab, <<LP>> \o w \o <<RP>>) = Parse(Tab, w)
                      /\ Tight => LET s == Shown(Parse(Tab, w)) IN WellFormed(Tab, s) /\ Parse(Tab, s) = Parse(Tab, w)
=============================================================================
