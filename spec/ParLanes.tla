------------------------------ MODULE ParLanes ------------------------------
(***************************************************************************)
(* An operation along one axis of an array processes the lines ("lanes")   *)
(* of the array one by one, in any order, by any number of workers.        *)
(*                                                                         *)
(* This module says what every schedule has to respect, in terms of what   *)
(* can be observed of the one-dimensional calls:                           *)
(*   - a call for lane l begins at most once, on a worker that is not      *)
(*     inside another call;                                                *)
(*   - it reads the lane's own data and writes into memory nobody else is  *)
(*     reading or writing meanwhile;                                       *)
(*   - the operation returns when every lane was processed, and every lane *)
(*     of the result is the lane's own.                                    *)
(* Memory is a set of intervals <<lo, hi>> (half open).                    *)
(*                                                                         *)
(* ParDesign.tla models how the code does it and is checked to refine      *)
(* this module; ParTrace.tla checks recorded executions against it.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT NoCall
VARIABLES lanes,     \* number of lanes of this operation (0-based lanes)
          begun,     \* lanes whose call has begun
          running,   \* worker -> NoCall or [lane, in, out]
          returned   \* the operation has returned
vars == <<lanes, begun, running, returned>>

Overlap(a, b) == a[1] < b[2] /\ b[1] < a[2]
Busy == {w \in DOMAIN running : running[w] # NoCall}

Start(n, workers) ==
    /\ lanes = n /\ begun = {} /\ returned = FALSE
    /\ running = [w \in workers |-> NoCall]

\* nobody may touch what a running call writes, nor write what it reads
Exclusive(in, out, me) ==
    \A w \in Busy \ {me} : /\ ~Overlap(out, running[w].out)
                           /\ ~Overlap(out, running[w].in)
                           /\ ~Overlap(in, running[w].out)

Begin(w, l, in, out) ==
    /\ ~returned
    /\ l \in 0..(lanes - 1) /\ l \notin begun
    /\ running[w] = NoCall
    /\ ~Overlap(in, out)
    /\ Exclusive(in, out, w)
    /\ begun' = begun \cup {l}
    /\ running' = [running EXCEPT ![w] = [lane |-> l, in |-> in, out |-> out]]
    /\ UNCHANGED <<lanes, returned>>

End(w, l) ==
    /\ running[w] # NoCall /\ running[w].lane = l
    /\ running' = [running EXCEPT ![w] = NoCall]
    /\ UNCHANGED <<lanes, begun, returned>>

\* placed[z + 1]: whose result the code left in lane z (-1: nobody's)
Return(placed) ==
    /\ ~returned
    /\ Busy = {}
    /\ Cardinality(begun) = lanes
    /\ Len(placed) = lanes
    /\ \A z \in 1..lanes : placed[z] = z - 1
    /\ returned' = TRUE
    /\ UNCHANGED <<lanes, begun, running>>
=============================================================================
