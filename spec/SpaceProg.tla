------------------------------ MODULE SpaceProg ------------------------------
(***************************************************************************)
(* Programs on a distributed two-dimensional space (C15).  The state says  *)
(* which representation every process holds: physical values in y-pencils, *)
(* composite or orthogonal coefficients in x-pencils.  A program is any    *)
(* legal sequence of operations.                                           *)
(*                                                                         *)
(* Spec is explored exhaustively: for every pair of bases, every size and  *)
(* every process count, each operation's intermediate and final shape has  *)
(* a decomposition the space prepares (Prepared), and every process owns   *)
(* something of it.  SpecSim writes random programs for the code.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

CONSTANTS NProcs, Sizes, Depth

VARIABLES np, ax, rep, steps, done
vars == <<np, ax, rep, steps, done>>

RealKinds == {"CH", "DI", "NE", "DN", "BA", "BB"}
NBC(k) == IF k \in {"DI", "NE", "DN"} THEN 2 ELSE IF k \in {"BA", "BB"} THEN 4 ELSE 0
Min(k) == CASE k = "CH" -> 2 [] k \in {"DI", "NE"} -> 5 [] k = "DN" -> 6 [] k \in {"BA", "BB"} -> 10 [] OTHER -> 1
Or(a) == IF a.k = "R2" THEN a.n \div 2 + 1 ELSE a.n
Sp(a) == Or(a) - NBC(a.k)
L(a, r) == CASE r = "phys" -> a.n [] r = "spec" -> Sp(a) [] r = "orth" -> Or(a)
Pairs == (RealKinds \X RealKinds) \cup ({"R2"} \X RealKinds) \cup {<<"C2", "R2">>, <<"C2", "C2">>}
Family(q) == IF q[1] = "C2" THEN IF q[2] = "C2" THEN "CC" ELSE "CR" ELSE IF q[1] = "R2" THEN "Rr" ELSE "rr"
Fits(k, n, p) == n >= Min(k) /\ LET a == [k |-> k, n |-> n] IN a.n >= p /\ Sp(a) >= p

Ops == {"Fill", "Forward", "Backward", "ToOrtho", "FromOrtho", "Gradient"}
From(o) == CASE o = "Forward" -> "phys" [] o = "FromOrtho" -> "orth" [] OTHER -> "spec"
To(o) == CASE o = "Backward" -> "phys" [] o \in {"ToOrtho", "Gradient"} -> "orth" [] OTHER -> "spec"
Known == {<<ax[1].n, ax[2].n>>, <<Sp(ax[1]), ax[2].n>>, <<ax[1].n, Sp(ax[2])>>, <<Sp(ax[1]), Sp(ax[2])>>}
MiddleOf(o) == IF o = "Forward" THEN <<L(ax[1], From(o)), L(ax[2], To(o))>>
               ELSE <<L(ax[1], To(o)), L(ax[2], From(o))>>
OutOf(o) == <<L(ax[1], To(o)), L(ax[2], To(o))>>

Init == /\ \E p \in NProcs : \E q \in Pairs : \E a, b \in Sizes :
             /\ Fits(q[1], a, p) /\ Fits(q[2], b, p)
             /\ np = p /\ ax = <<[k |-> q[1], n |-> a], [k |-> q[2], n |-> b]>>
        /\ rep = "none" /\ steps = <<>> /\ done = FALSE
Apply(o) == /\ rep' = To(o) /\ UNCHANGED <<np, ax, steps, done>>
Fill(r) == rep' = r /\ UNCHANGED <<np, ax, steps, done>>
Next == \/ \E o \in Ops \ {"Fill"} : rep = From(o) /\ Apply(o)
        \/ \E r \in {"phys", "spec", "orth"} : Fill(r)
Spec == Init /\ [][Next]_vars

\* Gradient of coefficients that fill the orthogonal shape is possible too when both coincide
Prepared == \A o \in Ops \ {"Fill"} : MiddleOf(o) \in Known /\ OutOf(o) \in Known
\* nobody's share of any shape on the way is empty
Shares == \A o \in Ops \ {"Fill"} : \A s \in {MiddleOf(o), OutOf(o)} : s[1] >= np /\ s[2] >= np

(***************************************************************************)
(* Programs                                                                *)
(***************************************************************************)
InitSim == np \in NProcs /\ ax = <<>> /\ rep = "none" /\ steps = <<>> /\ done = FALSE
Pick == /\ ax = <<>>
        /\ \E f \in {RandomElement({"rr", "rr", "Rr", "CR", "CC"})} :
           \E q \in {RandomElement({x \in Pairs : Family(x) = f})} :
           \E a \in {RandomElement({n \in Sizes : Fits(q[1], n, np)})} :
           \E b \in {RandomElement({n \in Sizes : Fits(q[2], n, np)})} :
             ax' = <<[k |-> q[1], n |-> a], [k |-> q[2], n |-> b]>>
        /\ UNCHANGED <<np, rep, steps, done>>
One(S) == {RandomElement(S)}
Rec(o, r) == \E form \in One({"alloc", "inplace"}) : \E li \in One({"C", "V"}) : \E lo \in One({"C", "V"}) :
             \E late \in One(0..np) : \E d0 \in One(0..4) : \E d1 \in One(0..4) :
             \E sc \in One({0, 1, 2}) : \E seed \in One(1..100000) :
             /\ steps' = Append(steps, [op |-> o, to |-> r, form |-> form, li |-> li, lo |-> lo, late |-> late,
                                        d |-> <<d0, d1>>, scale |-> sc, seed |-> seed])
             /\ rep' = r /\ UNCHANGED <<np, ax, done>>
Sim == /\ ax # <<>> /\ Len(steps) < Depth
       /\ \/ \E o \in Ops \ {"Fill"} : rep = From(o) /\ Rec(o, To(o))
          \/ \E r \in One({"phys", "spec", "orth"}) : Rec("Fill", r)
Write == /\ Len(steps) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<np, ax, rep, steps>>
         /\ CSVWrite("%1$s", <<ToJson([np |-> np, steps |-> steps,
               ax |-> [i \in 1..2 |-> <<ax[i].k, ToString(ax[i].n)>>]])>>, IOEnv.OUT)
SpecSim == InitSim /\ [][Pick \/ Sim \/ Write]_vars
=============================================================================
