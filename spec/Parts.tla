--------------------------------- MODULE Parts ---------------------------------
(***************************************************************************)
(* Small parts other algorithms are made of.                               *)
(*                                                                         *)
(* Combined visitors: nodes are <<0>> (a visitor) or <<1, kids>> (visitors *)
(* combined in the order of kids); an event goes through the leaves of a   *)
(* node in order, up to the first one that fails, if any.                  *)
(*                                                                         *)
(* Property maps: dictionaries with a default, a map per way of reading.   *)
(*                                                                         *)
(* Closed operators: the operation extended by an absorbing element.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Leaves(_, _), LeavesOf(_, _)
Leaves(nodes, v) == IF nodes[v][1] = 0 THEN <<v>> ELSE LeavesOf(nodes, nodes[v][2])
LeavesOf(nodes, kids) == IF kids = <<>> THEN <<>> ELSE Leaves(nodes, Head(kids)) \o LeavesOf(nodes, Tail(kids))
\* the leaves that see an event, when those of Failing fail on it
RECURSIVE UpTo(_, _)
UpTo(ls, failing) == IF ls = <<>> THEN <<>> ELSE IF Head(ls) \in failing THEN <<Head(ls)>> ELSE <<Head(ls)>> \o UpTo(Tail(ls), failing)
Sees(nodes, v, failing) == UpTo(Leaves(nodes, v), failing)
(* ---------------------------------------------------------- property maps *)
\* a dictionary: [d: default, f: <<<<key, value>>, ...>>], the last pair for a key counts
RECURSIVE Last(_, _, _)
Last(f, k, default) == IF f = <<>> THEN default ELSE IF f[Len(f)][1] = k THEN f[Len(f)][2] ELSE Last(SubSeq(f, 1, Len(f) - 1), k, default)
\* a map: <<"assoc", dictionary>>, <<"func", <<a, b>>>> (a * key + b), <<"id">>, <<"const", value>>
Value(dicts, m, k) ==
  CASE m[1] = "assoc" -> Last(dicts[m[2]].f, k, dicts[m[2]].d)
    [] m[1] = "func" -> m[2] * k + m[3]
    [] m[1] = "id" -> k
    [] m[1] = "const" -> m[2]
Writable(m) == m[1] = "assoc"
Written(dicts, i, k, v) == [dicts EXCEPT ![i].f = Append(@, <<k, v>>)]
(* -------------------------------------------------------- closed operators *)
Plain(op, x, y) == CASE op = "plus" -> x + y [] op = "time" -> x * y [] op = "max" -> (IF x > y THEN x ELSE y) [] op = "min" -> (IF x < y THEN x ELSE y) [] op = "minus" -> x - y
Closed(op, z, x, y) == IF x = z \/ y = z THEN z ELSE Plain(op, x, y)
=============================================================================
