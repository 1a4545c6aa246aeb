------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Generic acceptor of recorded executions.                                *)
(*                                                                         *)
(* A batch of executions recorded from the real code is read from the file *)
(* named by the environment variable VT_TRACES: a JSON array of records    *)
(* [init |-> x, ev |-> <<e1, e2, ...>>].  For a trace, the specification   *)
(* state `st' starts at Start(init); each event e must be allowed by the   *)
(* specification in `st': Bad(st, e) is the set of names of the clauses of *)
(* the specification that the event breaks, and Step(st, e) the            *)
(* specification's next state.  Every trace is given exactly one verdict   *)
(* (ACCEPT or REJECT with the clauses), printed as JSON; the driver treats *)
(* a missing verdict as a rejection.                                       *)
(*                                                                         *)
(* An event whose op is "all" bundles observations made in one state.      *)
(* An event whose op is "exc" records that the code raised, hung or        *)
(* crashed where the specification has a result: it is never allowed.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS Traces, Start(_), Bad(_, _), Step(_, _)
VARIABLES tid, l, st


Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ st = Start(Traces[tid].init)

Next == LET tr == Traces[tid].ev IN
        /\ l <= Len(tr)
        /\ LET e == tr[l]
               bad == IF e.op = "exc" THEN {"raised:" \o e.what}
                      ELSE IF e.op = "all" THEN UNION {Bad(st, e.qs[i]) : i \in 1..Len(e.qs)}
                      ELSE Bad(st, e)
           IN IF bad # {}
              THEN /\ PrintT(ToJson(<<"REJECT", tid, l, bad>>))
                   /\ l' = Len(tr) + 2
                   /\ UNCHANGED <<tid, st>>
              ELSE /\ st' = IF e.op = "all" THEN st ELSE Step(st, e)
                   /\ l' = l + 1
                   /\ tid' = tid
                   /\ (l = Len(tr) => PrintT(ToJson(<<"ACCEPT", tid>>)))
Spec == Init /\ [][Next]_<<tid, l, st>>
\* st is a function of <<tid, l>>
KitView == <<tid, l>>
=============================================================================
