----------------------------- MODULE DecompTrace -----------------------------
(***************************************************************************)
(* Runs of the code against Decomp.tla (C13, C14, C16).  Each trace of the *)
(* file TRACES holds a program, the partition the processes reported, and  *)
(* per process what each step returned.  The processes' logs carry no      *)
(* common clock: the interleaving is reconstructed.  Entering only ever    *)
(* enables others, so it is enough to move the first process that can; if  *)
(* that process's record disagrees with Decomp's Exit, or nobody can move, *)
(* TLC stops there.                                                        *)
(***************************************************************************)
EXTENDS Decomp

VARIABLES ti
trs == JsonDeserialize(IOEnv.TRACES)
Tr == trs[ti]

FnOf(seq) == [r \in 0..(Len(seq) - 1) |-> seq[r + 1]]
Load(t) ==
    /\ np' = t.np
    /\ dec' = t.dec
    /\ part' = [d \in 1..Len(t.dec) |-> [x |-> FnOf(t.part[d].x), y |-> FnOf(t.part[d].y)]]
    /\ prog' = t.steps
    /\ pc' = [r \in 0..(t.np - 1) |-> 1]
    /\ inside' = [r \in 0..(t.np - 1) |-> FALSE]
    /\ box' = <<>>
    /\ pen' = [d \in 1..Len(t.dec) |-> [o \in {"x", "y"} |-> [r \in 0..(t.np - 1) |-> None]]]
    /\ last' = [r \in 0..(t.np - 1) |-> None]

TraceInit == /\ Start0(1) /\ dec = <<>> /\ part = <<>> /\ ti = 0

\* what lookups returned next to what was asked for
LookOK(t) == \A k \in 1..Len(t.look) : t.look[k][1] = t.look[k][2]

NextTrace == /\ \A r \in Ranks : pc[r] = Len(prog) + 1
             /\ ti < Len(trs)
             /\ ti' = ti + 1
             /\ LookOK(trs[ti + 1])
             /\ Load(trs[ti + 1])

\* the number an element is stored as
Code(d, e) == LET n == dec[d].n  v == (e[1] * n[1] + e[2]) * n[2] + e[3] + 1 IN
              IF dec[d].ty = "u8" THEN v % 251 ELSE v
Flat(A, d, rows, cols) == [k \in 1..(rows * cols) |-> Code(d, A[(k - 1) \div cols, (k - 1) % cols])]

\* what process r logged for step s: [d |-> data]
Logged(r, s) == Tr.log[r + 1][s]
Agrees(r, s) ==
    LET st == prog[s]  d == st.d  o == st.o  res == Result(s, r)  n == dec[d].n
        t == IF st.op = "Transpose" THEN Other(o) ELSE o
    IN IF res = None THEN Len(Logged(r, s).d) = 0
       ELSE IF st.op \in Scalar THEN Logged(r, s).d = res
       ELSE IF st.op \in {"Gather", "AllGather"}
            THEN Logged(r, s).n = n /\ Logged(r, s).d = Flat(res, d, n[1], n[2])
       ELSE /\ Logged(r, s).n = <<Rows(d, t, r), Cols(d, t, r)>>
            /\ Logged(r, s).d = Flat(res, d, Rows(d, t, r), Cols(d, t, r))

CanMove(r) == pc[r] <= Len(prog) /\ (~inside[r] \/ CanExit(r))
Move == /\ ti > 0
        /\ \E r \in Ranks :
             /\ CanMove(r) /\ \A q \in 0..(r - 1) : ~CanMove(q)
             /\ \/ Enter(r)
                \/ CanExit(r) /\ Agrees(r, pc[r]) /\ Exit(r)
        /\ UNCHANGED ti
Finish == /\ ti = Len(trs) /\ (\A r \in Ranks : pc[r] = Len(prog) + 1)
          /\ UNCHANGED <<vars, ti>>
Short == [ti |-> ti, pc |-> pc, inside |-> inside]
TraceSpec == TraceInit /\ [][NextTrace \/ Move \/ Finish]_<<vars, ti>>
=============================================================================
