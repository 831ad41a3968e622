----------------------------- MODULE MisuseTrace -----------------------------
(***************************************************************************)
(* Recorded calls against Misuse.tla.  RECS: one record per program,       *)
(* process and call: the call, the shapes the process says it holds, the   *)
(* shapes of the arrays it handed over and what became of it.              *)
(***************************************************************************)
EXTENDS Misuse
VARIABLES ti
recs == JsonDeserialize(IOEnv.RECS)

Verdict(x) == IF Refused(x.call, x.rank, x.sh) THEN "refused" ELSE "returned"
OK(x) == LET c == x.call  root == RootVariant(c, x.rank) IN
         /\ x.gin = Given(c, "in", root, x.sh) /\ x.gout = Given(c, "out", root, x.sh)
         /\ x.got = Verdict(x)
         /\ x.good
TraceInit == /\ np = 1 /\ n = <<>> /\ part = <<>> /\ prog = <<>> /\ pc = 0 /\ box = 0 /\ out = 0 /\ ti = 0
TraceNext == /\ ti < Len(recs) /\ OK(recs[ti + 1]) /\ ti' = ti + 1 /\ UNCHANGED vars
Finish == ti = Len(recs) /\ UNCHANGED <<vars, ti>>
Short == [ti |-> ti]
TraceSpec == TraceInit /\ [][TraceNext \/ Finish]_<<vars, ti>>
=============================================================================
