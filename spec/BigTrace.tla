------------------------------ MODULE BigTrace ------------------------------
(***************************************************************************)
(* Runs on large arrays (messages beyond any eager limit) against          *)
(* Decomp.tla.  By Decomp's invariants Coherent and Results a step leaves  *)
(* every process with its part (or the whole) of the generation that       *)
(* prog[s].after names, so contents are represented by that generation and *)
(* compared at sampled positions; the process itself counts the positions  *)
(* that differ anywhere.                                                   *)
(***************************************************************************)
EXTENDS Decomp

VARIABLES ti
trs == JsonDeserialize(IOEnv.TRACES)

FnOf(seq) == [r \in 0..(Len(seq) - 1) |-> seq[r + 1]]
TraceInit == /\ Start0(1) /\ dec = <<>> /\ part = <<>> /\ ti = -1

\* extents, first row and first column of what step st gives process r (of trace t)
Where(t, st, r) ==
    LET n == t.dec[st.d].n
        o == IF st.op = "Transpose" THEN Other(st.o) ELSE st.o
        px == FnOf(t.part[st.d].x)
        py == FnOf(t.part[st.d].y)
    IN IF st.op \in {"Gather", "AllGather"} THEN <<n[1], n[2], 0, 0>>
       ELSE IF o = "x" THEN <<n[1], px[r], 0, Start(px, r)>>
       ELSE <<py[r], n[2], Start(py, r), 0>>
Gen(st) == st.after[st.d][IF st.op = "Transpose" THEN Other(st.o) ELSE st.o]
Code(ty, n, g, i, j) == LET v == (g * n[1] + i) * n[2] + j + 1 IN IF ty = "u8" THEN v % 251 ELSE v

StepOK(t, k, r) ==
    LET st == t.steps[k]  l == t.log[r + 1][k]  n == t.dec[st.d].n IN
    IF st.op = "Gather" /\ r # Root THEN Len(l.d) = 0
    ELSE LET w == Where(t, st, r) IN
         /\ l.n = <<w[1], w[2]>>
         /\ l.bad = 0
         /\ Len(l.s) >= 9
         /\ \A q \in 1..Len(l.s) :
              LET i == l.s[q][1]  j == l.s[q][2] IN
              /\ i \in 0..(w[1] - 1) /\ j \in 0..(w[2] - 1)
              /\ l.s[q][3] = Code(t.dec[st.d].ty, n, Gen(st), w[3] + i, w[4] + j)
TraceOK(t) == \A k \in 1..Len(t.steps) : \A r \in 0..(t.np - 1) : StepOK(t, k, r)

Begin == ti = -1 /\ ti' = 0 /\ UNCHANGED vars
Take == /\ ti >= 0 /\ ti < Len(trs) /\ TraceOK(trs[ti + 1]) /\ ti' = ti + 1 /\ UNCHANGED vars
Finish == ti = Len(trs) /\ UNCHANGED <<vars, ti>>
Short == [ti |-> ti,
          first |-> IF ti \in {-1, Len(trs)} THEN <<0, 0>> ELSE
             LET t == trs[ti + 1]
                 ws == {<<k, r>> \in (1..Len(t.steps)) \X (0..(t.np - 1)) : ~StepOK(t, k, r)}
             IN IF ws = {} THEN <<0, 0>> ELSE CHOOSE w \in ws : \A v \in ws : w[1] <= v[1]]
TraceSpec == TraceInit /\ [][Begin \/ Take \/ Finish]_<<vars, ti>>
=============================================================================
