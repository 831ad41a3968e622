------------------------------ MODULE ParTrace ------------------------------
(***************************************************************************)
(* Recorded executions of the code's array operations, checked against     *)
(* ParLanes.  One trace per operation call; IOEnv.TRACES is a sequence of  *)
(*   [id, lanes, workers,                                                  *)
(*    ev |-> <<[k |-> "B", w, l, in, out, ok] | [k |-> "E", w, l, ok]      *)
(*             | [k |-> "R", placed]>>]                                    *)
(* `ok`: the call found the lane's own data (B), its output was untouched  *)
(* by others when it ended (E).                                            *)
(***************************************************************************)
EXTENDS ParLanes, TLC, Json, IOUtils

Traces == TLCEval(JsonDeserialize(IOEnv.TRACES))
VARIABLES ti, pos
tvars == <<lanes, begun, running, returned, ti, pos>>

Tr == Traces[ti]
TraceInit == /\ ti \in 1..Len(Traces) /\ pos = 1
             /\ Start(Traces[ti].lanes, 1..Traces[ti].workers)
Step == /\ pos <= Len(Tr.ev)
        /\ pos' = pos + 1 /\ UNCHANGED ti
        /\ LET e == Tr.ev[pos] IN
           \/ e.k = "B" /\ e.ok /\ Begin(e.w, e.l, e.in, e.out)
           \/ e.k = "E" /\ e.ok /\ End(e.w, e.l)
           \/ e.k = "R" /\ Return(e.placed)
Done == pos > Len(Tr.ev) /\ returned /\ UNCHANGED tvars
\* every trace has to be accepted up to its end: a state without successor is a rejected trace
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars
=============================================================================
