---------------------------- MODULE ThompsonModel ----------------------------
(***************************************************************************)
(* Thompson's construction as a stack machine that reads every postfix     *)
(* expression of at most K tokens: each fragment on the stack has one      *)
(* initial and one final state and accepts exactly the language of its     *)
(* term, whatever the fragment is made of.                                 *)
(***************************************************************************)
EXTENDS Regex, SequencesExt
CONSTANTS Sigma, K, MaxRep, SharedStates
VARIABLES stack, len
vars == <<stack, len>>
Reps == {q \in (0..MaxRep) \X (-1..MaxRep) : q[2] = -1 \/ q[1] <= q[2]}    \* {m,n}, n = -1 for no bound
Frag(n, tr, i, f, t) == [n |-> n, tr |-> tr, i |-> i, f |-> f, t |-> t]
Shift(g, k) == {<<x[1] + k, x[2], x[3] + k>> : x \in g.tr}
Char(a) == Frag(2, {<<1, a, 2>>}, 1, 2, <<"set", {a}>>)
Empty == Frag(1, {}, 1, 1, Eps)
Cat(g, h) == Frag(g.n + h.n, g.tr \cup Shift(h, g.n) \cup {<<g.f, 0, h.i + g.n>>}, g.i, h.f + g.n, CatT(g.t, h.t))
Alt(g, h) == LET i == g.n + h.n + 1  f == i + 1 IN
  Frag(f, g.tr \cup Shift(h, g.n) \cup {<<i, 0, g.i>>, <<i, 0, h.i + g.n>>, <<g.f, 0, f>>, <<h.f + g.n, 0, f>>}, i, f, <<"alt", g.t, h.t>>)
\* around a fragment: new initial and final states, the way round if skip, the way back if loop
Around(g, skip, loop, t) == LET i == g.n + 1  f == g.n + 2 IN
  Frag(f, g.tr \cup {<<i, 0, g.i>>, <<g.f, 0, f>>} \cup (IF skip THEN {<<i, 0, f>>} ELSE {}) \cup (IF loop THEN {<<f, 0, i>>} ELSE {}), i, f, t)
Opt(g) == IF SharedStates     \* the construction before the repair 73d33e0
          THEN Frag(g.n, g.tr \cup {<<g.i, 0, g.f>>}, g.i, g.f, RepT(g.t, 0, 1))
          ELSE Around(g, TRUE, FALSE, RepT(g.t, 0, 1))
Star(g) == Around(g, TRUE, TRUE, RepT(g.t, 0, -1))
Plus(g) == Around(g, FALSE, TRUE, RepT(g.t, 1, -1))
RECURSIVE Power(_, _)
Power(g, m) == IF m = 0 THEN Empty ELSE IF m = 1 THEN g ELSE Cat(Power(g, m - 1), g)
\* k optional copies: the final state of each is linked to the last final state
RECURSIVE Options(_, _, _)
Options(g, h, k) == IF k = 0 THEN <<h, {h.f}>> ELSE LET r == Options(g, Cat(h, g), k - 1) IN <<r[1], r[2] \cup {h.f}>>
RECURSIVE Repeated(_, _, _)
Repeated(g, m, n) ==
  LET t == RepT(g.t, m, n) IN
  CASE m = 0 /\ n = 1 -> Opt(g)
    [] m = 0 /\ n = -1 -> Star(g)
    [] m = 1 /\ n = -1 -> Plus(g)
    [] m = 0 /\ n > 1 -> [Opt(Repeated(g, 1, n)) EXCEPT !.t = t]
    [] n = -1 -> [Cat(Power(g, m - 1), Plus(g)) EXCEPT !.t = t]
    [] OTHER -> LET r == Options(g, Power(g, m), n - m)  h == r[1]
                IN Frag(h.n, h.tr \cup {<<f, 0, h.f>> : f \in r[2] \ {h.f}}, h.i, h.f, t)
Top == stack[Len(stack)]
Under == stack[Len(stack) - 1]
Pop(k) == SubSeq(stack, 1, Len(stack) - k)
Init == stack = <<>> /\ len = 0
Next == /\ len < K /\ len' = len + 1
        /\ \/ \E a \in Sigma : stack' = Append(stack, Char(a))
           \/ Len(stack) >= 1 /\ \E g \in {Opt(Top), Star(Top), Plus(Top)} : stack' = Append(Pop(1), g)
           \/ Len(stack) >= 1 /\ \E q \in Reps : stack' = Append(Pop(1), Repeated(Top, q[1], q[2]))
           \/ Len(stack) >= 2 /\ \E g \in {Cat(Under, Top), Alt(Under, Top)} : stack' = Append(Pop(2), g)
\* a fragment that the remaining tokens cannot consume is useless
Useful == Len(stack) <= K - len + 1
Spec == Init /\ [][Next]_vars
Auto(g) == [out |-> [q \in 1..g.n |-> LET r == SetToSeq({x \in g.tr : x[1] = q}) IN [i \in 1..Len(r) |-> <<r[i][2], r[i][3]>>]],
            ini |-> {g.i}, fin |-> {g.f}]
FragmentsOK == stack # <<>> => LET g == Top IN
                 /\ WF(Auto(g)) /\ DenotesNfa(g.t, Auto(g))
=============================================================================
