------------------------------- MODULE PartsModel -------------------------------
(***************************************************************************)
(* An event is delivered leaf by leaf through combined visitors (a stack   *)
(* of what is left to visit); a visitor may fail, which ends the run. Maps *)
(* share a dictionary, written through any of them. Eager = TRUE: every    *)
(* visitor is given all the events it can have before the next one.        *)
(***************************************************************************)
EXTENDS Parts
CONSTANTS Trees, Events, Keys, Values, MaxWrites, Eager
VARIABLES nodes, ev, todo, log, failed, dicts, hist
vars == <<nodes, ev, todo, log, failed, dicts, hist>>
\* node 1 is the top; nodes 2, 3 below it; leaves 4..6
Leaf == <<0>>
Shapes == CASE Trees = 1 -> {<<<<1, k>>, Leaf, Leaf, Leaf>> : k \in {<<>>, <<2>>, <<2, 3>>, <<3, 2>>, <<2, 3, 4>>, <<2, 3, 2>>}}
            [] Trees = 2 -> {<<<<1, k>>, <<1, j>>, <<1, i>>, Leaf, Leaf, Leaf>> : k \in {<<2, 3>>, <<2, 4, 3>>, <<2, 2, 5>>}, j \in {<<>>, <<4, 5>>, <<5, 4>>, <<3, 4>>}, i \in {<<>>, <<6>>, <<6, 4>>}}
Init == /\ nodes \in Shapes /\ ev = 0 /\ todo = <<>> /\ log = <<>> /\ failed = 0
        /\ dicts = <<[d |-> 0, f |-> <<>>]>> /\ hist = <<>>
Call == /\ failed = 0 /\ todo = <<>> /\ ev < Events /\ ev' = ev + 1 /\ todo' = <<1>> /\ UNCHANGED <<nodes, log, failed, dicts, hist>>
Expand == /\ failed = 0 /\ todo # <<>> /\ nodes[Head(todo)][1] = 1
          /\ todo' = nodes[Head(todo)][2] \o Tail(todo) /\ UNCHANGED <<nodes, ev, log, failed, dicts, hist>>
Deliver(ok) == /\ failed = 0 /\ todo # <<>> /\ nodes[Head(todo)][1] = 0
               /\ log' = log \o (IF Eager THEN [i \in 1..(Events + 1 - ev) |-> <<Head(todo), ev - 1 + i>>] ELSE <<<<Head(todo), ev>>>>)
               /\ failed' = (IF ok THEN 0 ELSE Head(todo)) /\ todo' = Tail(todo)
               /\ UNCHANGED <<nodes, ev, dicts, hist>>
Write(k, v) == /\ Len(hist) < MaxWrites /\ hist' = Append(hist, <<k, v>>) /\ dicts' = Written(dicts, 1, k, v) /\ UNCHANGED <<nodes, ev, todo, log, failed>>
Next == Call \/ Expand \/ (\E ok \in BOOLEAN : Deliver(ok)) \/ (\E k \in Keys, v \in Values : Write(k, v))
Spec == Init /\ [][Next]_vars
(* ------------------------------------------------------------- properties *)
Count(x, y) == Cardinality({i \in 1..Len(log) : log[i] = <<x, y>>})
In(ls, x) == Cardinality({i \in 1..Len(ls) : ls[i] = x})
Own(x) == SelectSeq(log, LAMBDA p : p[1] = x)
\* the log is event by event, each through the leaves in order
Order == \A i, j \in 1..Len(log) : i < j => log[i][2] <= log[j][2]
AsSpecified == \A e \in 1..ev : LET seen == SelectSeq(log, LAMBDA p : p[2] = e)
                                    all == Sees(nodes, 1, IF e = ev THEN {failed} ELSE {})
                                IN \* complete but for the event under way
                                   /\ Len(seen) <= Len(Sees(nodes, 1, {}))
                                   /\ \A i \in 1..Len(seen) : seen[i][1] = Leaves(nodes, 1)[i]
                                   /\ (e < ev \/ (todo = <<>> /\ failed = 0)) => [i \in 1..Len(seen) |-> seen[i][1]] = all
\* each visitor sees, as often as it occurs, what it would see alone
Alone == failed = 0 /\ todo = <<>> =>
           \A x \in 1..Len(nodes) : nodes[x][1] = 0 => \A e \in 1..ev : Count(x, e) = In(Leaves(nodes, 1), x)
\* what was last written, the default before
ReadsBack == \A k \in Keys : LET ws == {i \in 1..Len(hist) : hist[i][1] = k} IN
               Value(dicts, <<"assoc", 1>>, k) = (IF ws = {} THEN 0 ELSE hist[CHOOSE i \in ws : \A j \in ws : j <= i][2])
\* the closed operators, for either absorbing element: total, absorbing, and as good as the plain ones
Nat3 == 0..3
Inf == 99
Absorbs == \A op \in {"plus", "time", "max", "min"}, z \in {0, 1, Inf}, x \in Nat3 \cup {Inf} : Closed(op, z, x, z) = z /\ Closed(op, z, z, x) = z
Laws == \A op \in {"plus", "max"}, x, y, w \in Nat3 \cup {Inf} :
          /\ Closed(op, Inf, x, y) = Closed(op, Inf, y, x)
          /\ Closed(op, Inf, Closed(op, Inf, x, y), w) = Closed(op, Inf, x, Closed(op, Inf, y, w))
          /\ Closed("min", 0, x, y) = Closed("min", 0, y, x) /\ Closed("min", 0, Closed("min", 0, x, y), w) = Closed("min", 0, x, Closed("min", 0, y, w))
\* (time, infinity absorbing) is so even against 0
Laws2 == \A x \in Nat3 : Closed("time", Inf, 0, x) = 0 /\ Closed("time", Inf, 0, Inf) = Inf
=============================================================================
