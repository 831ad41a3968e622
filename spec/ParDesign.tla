----------------------------- MODULE ParDesign -----------------------------
(***************************************************************************)
(* How funspace's array operations process lanes: `Workers` threads claim  *)
(* lanes in any order.                                                     *)
(*   contiguous = TRUE   the lane is a row: the call works in place        *)
(*   contiguous = FALSE  the lane is copied out, the call writes a scratch *)
(*                       line, which is then copied to the output lane     *)
(* The serial variants have one worker and one scratch line (Shared); the  *)
(* parallel ones allocate a scratch line per lane (Shared = FALSE).        *)
(* Values: cell q of lane l is <<l, q>> in the input and <<"f", l, q>> in  *)
(* the output; initially the output holds garbage.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Workers, N, LenIn, LenOut, Shared, NoCall

VARIABLES contiguous, owner, pc, pos, input, output, scratch, lane, begun, returned
dvars == <<contiguous, owner, pc, pos, input, output, scratch, lane, begun, returned>>

Lanes == 0..(N - 1)
\* memory map: input rows, then output rows, then scratch lines (per lane or one)
InAt(l) == <<l * LenIn, (l + 1) * LenIn>>
OutAt(l) == <<N * LenIn + l * LenOut, N * LenIn + (l + 1) * LenOut>>
SlotOf(l) == IF Shared THEN 0 ELSE l
ScrAt(l) == <<N * (LenIn + LenOut) + SlotOf(l) * LenOut,
              N * (LenIn + LenOut) + (SlotOf(l) + 1) * LenOut>>
\* the copy of the input lane made for non-contiguous data
CopyAt(w) == <<N * (LenIn + 2 * LenOut) + w * LenIn, N * (LenIn + 2 * LenOut) + (w + 1) * LenIn>>

F(l, q) == <<"f", l, q>>

Init == /\ contiguous \in BOOLEAN
        /\ owner = [l \in Lanes |-> NoCall]
        /\ pc = [w \in Workers |-> "idle"]
        /\ pos = [w \in Workers |-> 0]
        /\ lane = [w \in Workers |-> -1]
        /\ input = [l \in Lanes |-> [q \in 1..LenIn |-> <<l, q>>]]
        /\ output = [l \in Lanes |-> [q \in 1..LenOut |-> <<"g", -1, -1>>]]
        /\ scratch = [s \in (IF Shared THEN {0} ELSE Lanes) |-> [q \in 1..LenOut |-> <<"g", -1, -1>>]]
        /\ begun = {} /\ returned = FALSE

Claim(w) == /\ pc[w] = "idle" /\ ~returned
            /\ \E l \in Lanes : /\ owner[l] = NoCall
                                /\ owner' = [owner EXCEPT ![l] = w]
                                /\ lane' = [lane EXCEPT ![w] = l]
            /\ pc' = [pc EXCEPT ![w] = "claimed"]
            /\ UNCHANGED <<contiguous, pos, input, output, scratch, begun, returned>>

BeginCall(w) == /\ pc[w] = "claimed"
                /\ pc' = [pc EXCEPT ![w] = "call"] /\ pos' = [pos EXCEPT ![w] = 0]
                /\ begun' = begun \cup {lane[w]}
                /\ UNCHANGED <<contiguous, owner, input, output, scratch, lane, returned>>

\* the one-dimensional operation overwrites every cell, in steps
Write(w) == /\ pc[w] = "call" /\ pos[w] < LenOut
            /\ LET l == lane[w]  q == pos[w] + 1 IN
               IF contiguous
               THEN /\ output' = [output EXCEPT ![l][q] = F(l, q)] /\ UNCHANGED scratch
               ELSE /\ scratch' = [scratch EXCEPT ![SlotOf(l)][q] = F(l, q)] /\ UNCHANGED output
            /\ pos' = [pos EXCEPT ![w] = @ + 1]
            /\ UNCHANGED <<contiguous, owner, pc, input, lane, begun, returned>>

EndCall(w) == /\ pc[w] = "call" /\ pos[w] = LenOut
              /\ pc' = [pc EXCEPT ![w] = IF contiguous THEN "idle" ELSE "copy"]
              /\ pos' = [pos EXCEPT ![w] = 0]
              /\ UNCHANGED <<contiguous, owner, input, output, scratch, lane, begun, returned>>

CopyBack(w) == /\ pc[w] = "copy"
               /\ LET l == lane[w] IN
                  IF pos[w] < LenOut
                  THEN /\ output' = [output EXCEPT ![l][pos[w] + 1] = scratch[SlotOf(l)][pos[w] + 1]]
                       /\ pos' = [pos EXCEPT ![w] = @ + 1] /\ UNCHANGED pc
                  ELSE /\ pc' = [pc EXCEPT ![w] = "idle"] /\ UNCHANGED <<output, pos>>
               /\ UNCHANGED <<contiguous, owner, input, scratch, lane, begun, returned>>

Finish == /\ ~returned
          /\ \A l \in Lanes : owner[l] # NoCall
          /\ \A w \in Workers : pc[w] = "idle"
          /\ returned' = TRUE
          /\ UNCHANGED <<contiguous, owner, pc, pos, input, output, scratch, lane, begun>>

Next == Finish \/ \E w \in Workers : Claim(w) \/ BeginCall(w) \/ Write(w) \/ EndCall(w) \/ CopyBack(w)
Spec == Init /\ [][Next]_dvars /\ WF_dvars(Next)

\* ---- properties -----------------------------------------------------------
SerialResult == [l \in Lanes |-> [q \in 1..LenOut |-> F(l, q)]]
FinalOK == returned => output = SerialResult
InputKept == \A l \in Lanes : \A q \in 1..LenIn : input[l][q] = <<l, q>>
Terminates == <>returned

\* ---- refinement of ParLanes ----------------------------------------------
Placed == [z \in 1..N |-> IF \A q \in 1..LenOut : output[z - 1][q] = F(z - 1, q) THEN z - 1 ELSE -1]
CallOf(w) == IF pc[w] = "call"
             THEN [lane |-> lane[w],
                   in |-> IF contiguous THEN InAt(lane[w]) ELSE CopyAt(w),
                   out |-> IF contiguous THEN OutAt(lane[w]) ELSE ScrAt(lane[w])]
             ELSE NoCall
Abs == INSTANCE ParLanes WITH lanes <- N, begun <- begun,
          running <- [w \in Workers |-> CallOf(w)], returned <- returned
AbsNext == \E w \in Workers :
              \/ \E l \in Lanes : Abs!Begin(w, l, IF contiguous THEN InAt(l) ELSE CopyAt(w),
                                                 IF contiguous THEN OutAt(l) ELSE ScrAt(l))
              \/ \E l \in Lanes : Abs!End(w, l)
              \/ Abs!Return(Placed)
Refines == [][AbsNext]_<<begun, [w \in Workers |-> CallOf(w)], returned>>
=============================================================================
