---------------------------- MODULE DecompDesign ----------------------------
(***************************************************************************)
(* How the decomposition does it: points are dealt out in order, the       *)
(* remainder to the last processes; data is packed into a buffer, the      *)
(* buffer is cut by counts and displacements, the pieces travel on their   *)
(* own, and what arrives is unpacked.  Messages may be delivered in any    *)
(* order.  Checked: every operation ends, on every process, with what      *)
(* Decomp.tla says (Part, Global).                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

CONSTANTS NProcs, Extents, Operations, Wrong   \* Wrong: counts of the wrong distribution

AllOps == [k : {"T", "G", "A", "S"}, o : {"x", "y"}]
Transpose == [k : {"T"}, o : {"x", "y"}]
RootOps == [k : {"G", "A", "S"}, o : {"x", "y"}]
VARIABLES p, n, op, sbuf, rbuf, got, phase, res
vars == <<p, n, op, sbuf, rbuf, got, phase, res>>

Ranks == 0..(p - 1)
None == <<>>
El(i, j) == <<i, j>>

(***************************************************************************)
(* Distribution::distribute                                                *)
(***************************************************************************)
Size(k, q, r) == LET base == k \div q  nl == q - (k - base * q) IN IF r < nl THEN base ELSE base + 1
RECURSIVE St(_, _, _)
St(k, q, r) == IF r = 0 THEN 0 ELSE St(k, q, r - 1) + Size(k, q, r - 1)
\* x-pencil: axis 2 split; y-pencil: axis 1 split
SzX(r) == <<n[1], Size(n[2], p, r)>>
SzY(r) == <<Size(n[1], p, r), n[2]>>
StX(r) == <<0, St(n[2], p, r)>>
StY(r) == <<St(n[1], p, r), 0>>
Sz(o, r) == IF o = "x" THEN SzX(r) ELSE SzY(r)
Off(o, r) == IF o = "x" THEN StX(r) ELSE StY(r)
Contig(o) == IF o = "x" THEN 1 ELSE 2

\* get_counts_all_to_all of rank r, from orientation o to t
CountsAA(o, t, r) == [q \in Ranks |-> Sz(t, q)[Contig(o)] * Sz(o, r)[Contig(t)]]
CountsAG(o) == [q \in Ranks |-> Sz(o, q)[1] * Sz(o, q)[2]]
Displs(c) == [q \in Ranks |-> FoldLeft(LAMBDA x, k : x + c[k], 0, [k \in 1..q |-> k - 1])]

(***************************************************************************)
(* Packing.  Rows: element (i, j) of a a-by-b array at i * b + j;          *)
(* columns (axes swapped): at j * a + i                                    *)
(***************************************************************************)
PackR(A, a, b) == [k \in 0..(a * b - 1) |-> A[k \div b, k % b]]
PackC(A, a, b) == [k \in 0..(a * b - 1) |-> A[k % a, k \div a]]
UnpackR(B, a, b) == [i \in 0..(a - 1), j \in 0..(b - 1) |-> B[i * b + j]]
UnpackC(B, a, b) == [i \in 0..(a - 1), j \in 0..(b - 1) |-> B[j * a + i]]
\* merge_xy: blocks of the senders one after the other, rows inside a block
RECURSIVE Before(_, _)
Before(w, q) == IF q = 0 THEN 0 ELSE Before(w, q - 1) + w[q - 1]
MergeXY(B, r) == LET h == SzY(r)[1]  w == [q \in Ranks |-> SzX(q)[2]] IN
    [i \in 0..(h - 1), j \in 0..(n[2] - 1) |->
       LET q == CHOOSE q \in Ranks : StX(q)[2] <= j /\ j < StX(q)[2] + w[q] IN
       B[Before(w, q) * h + i * w[q] + (j - StX(q)[2])]]
MergeYX(B, r) == LET w == SzX(r)[2]  h == [q \in Ranks |-> SzY(q)[1]] IN
    [i \in 0..(n[1] - 1), j \in 0..(w - 1) |->
       LET q == CHOOSE q \in Ranks : StY(q)[1] <= i /\ i < StY(q)[1] + h[q] IN
       B[Before(h, q) * w + j * h[q] + (i - StY(q)[1])]]

Pencil(o, r) == [i \in 0..(Sz(o, r)[1] - 1), j \in 0..(Sz(o, r)[2] - 1) |->
                   El(Off(o, r)[1] + i, Off(o, r)[2] + j)]
Global == [i \in 0..(n[1] - 1), j \in 0..(n[2] - 1) |-> El(i, j)]
Pack(o, A, a, b) == IF o = "x" THEN PackC(A, a, b) ELSE PackR(A, a, b)
Unpack(o, B, a, b) == IF o = "x" THEN UnpackC(B, a, b) ELSE UnpackR(B, a, b)

(***************************************************************************)
(* The operations: [k |-> kind, o |-> orientation of the source or target] *)
(***************************************************************************)
Send(r) == CASE op.k = "T" /\ op.o = "x" -> PackR(Pencil("x", r), SzX(r)[1], SzX(r)[2])
             [] op.k = "T" -> PackC(Pencil("y", r), SzY(r)[1], SzY(r)[2])
             [] op.k \in {"G", "A"} -> Pack(op.o, Pencil(op.o, r), Sz(op.o, r)[1], Sz(op.o, r)[2])
             [] OTHER -> IF r = 0 THEN Pack(op.o, Global, n[1], n[2]) ELSE None
Oth(o) == IF o = "x" THEN "y" ELSE "x"
Dir(o) == IF Wrong THEN Oth(o) ELSE o
\* (count, displacement) of the piece for q in r's send buffer / from q in r's receive buffer
SendCut(r, q) ==
    CASE op.k = "T" -> LET c == CountsAA(Dir(op.o), Oth(Dir(op.o)), r) IN <<c[q], Displs(c)[q]>>
      [] op.k \in {"G", "A"} -> <<CountsAG(op.o)[r], 0>>
      [] OTHER -> LET c == CountsAG(Dir(op.o)) IN <<c[q], Displs(c)[q]>>
RecvCut(r, q) ==
    CASE op.k = "T" -> LET c == CountsAA(Oth(op.o), op.o, r) IN <<c[q], Displs(c)[q]>>
      [] op.k \in {"G", "A"} -> LET c == CountsAG(Dir(op.o)) IN <<c[q], Displs(c)[q]>>
      [] OTHER -> <<CountsAG(op.o)[r], 0>>
\* who sends to whom
Pairs == CASE op.k \in {"T", "A"} -> Ranks \X Ranks
           [] op.k = "G" -> Ranks \X {0}
           [] OTHER -> {0} \X Ranks
RecvLen(r) == CASE op.k = "T" -> Sz(Oth(op.o), r)[1] * Sz(Oth(op.o), r)[2]
                [] op.k = "G" -> IF r = 0 THEN n[1] * n[2] ELSE 0
                [] op.k = "A" -> n[1] * n[2]
                [] OTHER -> CountsAG(op.o)[r]

Init == /\ p \in NProcs
        /\ n \in {e \in Extents \X Extents : e[1] >= p /\ e[2] >= p}
        /\ op \in Operations
        /\ sbuf = [r \in Ranks |-> None] /\ rbuf = [r \in Ranks |-> None]
        /\ got = {} /\ phase = [r \in Ranks |-> "start"] /\ res = [r \in Ranks |-> None]

Enter(r) == /\ phase[r] = "start"
            /\ phase' = [phase EXCEPT ![r] = "in"]
            /\ sbuf' = [sbuf EXCEPT ![r] = Send(r)]
            /\ rbuf' = [rbuf EXCEPT ![r] = [k \in 0..(RecvLen(r) - 1) |-> None]]
            /\ UNCHANGED <<p, n, op, got, res>>
\* the piece of q arrives at r
Deliver(q, r) ==
    /\ <<q, r>> \in Pairs \ got /\ phase[q] # "start" /\ phase[r] = "in"
    /\ LET s == SendCut(q, r)  t == RecvCut(r, q)
           m == IF s[1] < t[1] THEN s[1] ELSE t[1] IN
       rbuf' = [rbuf EXCEPT ![r] = [k \in DOMAIN @ |->
                  IF t[2] <= k /\ k < t[2] + m /\ s[2] + k - t[2] \in DOMAIN sbuf[q]
                  THEN sbuf[q][s[2] + k - t[2]] ELSE @[k]]]
    /\ got' = got \cup {<<q, r>>}
    /\ UNCHANGED <<p, n, op, sbuf, phase, res>>
Leave(r) ==
    /\ phase[r] = "in" /\ \A q \in Ranks : <<q, r>> \in Pairs => <<q, r>> \in got
    /\ phase' = [phase EXCEPT ![r] = "done"]
    /\ res' = [res EXCEPT ![r] =
         CASE op.k = "T" /\ op.o = "x" -> MergeXY(rbuf[r], r)
           [] op.k = "T" -> MergeYX(rbuf[r], r)
           [] op.k = "G" -> IF r = 0 THEN Unpack(op.o, rbuf[r], n[1], n[2]) ELSE None
           [] op.k = "A" -> Unpack(op.o, rbuf[r], n[1], n[2])
           [] OTHER -> Unpack(op.o, rbuf[r], Sz(op.o, r)[1], Sz(op.o, r)[2])]
    /\ UNCHANGED <<p, n, op, sbuf, rbuf, got>>
Next == \E r \in Ranks : Enter(r) \/ Leave(r) \/ \E q \in Ranks : Deliver(q, r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Correct == \A r \in Ranks : phase[r] = "done" =>
    res[r] = CASE op.k = "T" -> Pencil(Oth(op.o), r)
               [] op.k = "G" -> IF r = 0 THEN Global ELSE None
               [] op.k = "A" -> Global
               [] OTHER -> Pencil(op.o, r)
\* both ends agree on the size of every message, and messages do not overlap in the buffers
CountsMatch == \A e \in Pairs : SendCut(e[1], e[2])[1] = RecvCut(e[2], e[1])[1]
\* the partition is one of Decomp's
Dealt == \A o \in {"x", "y"} :
    LET ax == IF o = "x" THEN 2 ELSE 1 IN
    /\ FoldLeft(LAMBDA x, r : x + Sz(o, r)[ax], 0, [k \in 1..p |-> k - 1]) = n[ax]
    /\ \A r \in Ranks : Sz(o, r)[ax] \in {n[ax] \div p, n[ax] \div p + 1}
Finishes == <>(\A r \in Ranks : phase[r] = "done")
=============================================================================
