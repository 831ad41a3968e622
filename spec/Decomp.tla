------------------------------- MODULE Decomp -------------------------------
(***************************************************************************)
(* Distributed two-dimensional arrays and the collective operations on     *)
(* them (C12, C13, C14, C16).                                              *)
(*                                                                         *)
(* np processes 0..np-1 run the same program.  An array of a decomposition *)
(* d exists as x-pencils (first axis whole, second axis split) and as      *)
(* y-pencils (second axis whole, first axis split).  How the points of the *)
(* split axis are dealt out is left open except that it is a balanced      *)
(* partition on which all processes agree.                                 *)
(*                                                                         *)
(* A process executes a step in two moves: it Enters with its contribution *)
(* and Exits with its result once everybody it depends on has entered.     *)
(* Nothing else orders the processes.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, IOUtils, CSV

CONSTANTS NProcs,      \* possible process counts
          Extents,     \* possible extents of an axis
          NDec,        \* decompositions in use
          Types,       \* element types
          Ops,         \* operations a program may contain
          Depth,       \* steps of a program
          Planning     \* TRUE: only write programs

VARIABLES np,          \* number of processes
          dec,         \* decomposition -> [n |-> <<n0, n1>>, ty |-> type]
          part,        \* decomposition -> [x |-> sizes, y |-> sizes] per process
          prog,        \* the program so far
          pc,          \* process -> step it is at
          inside,      \* process -> it has entered that step
          box,         \* step -> process -> contribution
          pen,         \* decomposition -> orientation -> process -> content
          last         \* process -> result of its last step
vars == <<np, dec, part, prog, pc, inside, box, pen, last>>

Ranks == 0..(np - 1)
Root == 0
None == <<>>

(***************************************************************************)
(* Partitions                                                              *)
(***************************************************************************)
SumTo(s, r) == FoldLeft(LAMBDA x, q : x + s[q], 0, [q \in 1..r |-> q - 1])   \* s[0] + .. + s[r-1]
Start(s, r) == SumTo(s, r)
Balanced(n, p) == {s \in [0..(p - 1) -> {n \div p, (n \div p) + 1}] : SumTo(s, p) = n}
OwnerOf(s, k) == CHOOSE r \in DOMAIN s : Start(s, r) <= k /\ k < Start(s, r) + s[r]

\* the split axis: 2nd for x-pencils, 1st for y-pencils
Rows(d, o, r) == IF o = "x" THEN dec[d].n[1] ELSE part[d].y[r]
Cols(d, o, r) == IF o = "x" THEN part[d].x[r] ELSE dec[d].n[2]
Row0(d, o, r) == IF o = "x" THEN 0 ELSE Start(part[d].y, r)
Col0(d, o, r) == IF o = "x" THEN Start(part[d].x, r) ELSE 0
Owner(d, o, i, j) == IF o = "x" THEN OwnerOf(part[d].x, j) ELSE OwnerOf(part[d].y, i)

\* element (i, j) of the global array of generation g; 0-based
El(g, i, j) == <<g, i, j>>
Global(d, g) == [i \in 0..(dec[d].n[1] - 1), j \in 0..(dec[d].n[2] - 1) |-> El(g, i, j)]
Part(d, o, r, g) == [i \in 0..(Rows(d, o, r) - 1), j \in 0..(Cols(d, o, r) - 1) |->
                        El(g, Row0(d, o, r) + i, Col0(d, o, r) + j)]

(***************************************************************************)
(* Programs.  after: which generation each pencil holds once the step is   *)
(* done (0: nothing yet)                                                   *)
(***************************************************************************)
NoPlan == [d \in 1..NDec |-> [x |-> 0, y |-> 0]]
After(p) == IF p = <<>> THEN NoPlan ELSE p[Len(p)].after
Other(o) == IF o = "x" THEN "y" ELSE "x"
Scalar == {"Bcast", "GatherSum", "AllGatherSum"}
Some(S) == IF Planning THEN {RandomElement(S)} ELSE {CHOOSE x \in S : TRUE}

\* who brings a plain zero to a scalar step
Zeros == {"none", "all", "root", "others", "last"}
Extend0 ==
    /\ Len(prog) < Depth
    /\ \E op \in Ops : \E d \in (IF op \in Scalar THEN {1} ELSE 1..NDec) :
       \E o \in (IF op \in Scalar THEN {"x"} ELSE {"x", "y"}) :
       \E form \in Some({"alloc", "inplace"}) : \E li \in Some({"C", "F"}) : \E lo \in Some({"C", "F"}) :
       \E late \in Some(0..np) : \E sty \in Some(Types \cup {"u32", "u64"}) :
       \E zz \in (IF Planning THEN {RandomElement(Zeros)} ELSE {"none"}) :
         LET a == After(prog)
             g == Len(prog) + 1
             b == CASE op \in {"Fill", "Scatter"} -> [a EXCEPT ![d][o] = g]
                    [] op = "Transpose" -> [a EXCEPT ![d][Other(o)] = a[d][o]]
                    [] OTHER -> a
         IN /\ op \in {"Transpose", "Gather", "AllGather"} => a[d][o] # 0
            /\ prog' = Append(prog, [op |-> op, d |-> d, o |-> o, form |-> form, li |-> li, lo |-> lo,
                                     late |-> late, sty |-> sty, zz |-> zz, g |-> g, after |-> b])
Extend ==
    /\ \E r \in Ranks : pc[r] = Len(prog) + 1        \* somebody has arrived
    /\ Extend0
    /\ UNCHANGED <<np, dec, part, pc, inside, box, pen, last>>

(***************************************************************************)
(* Steps                                                                   *)
(***************************************************************************)
\* who has to have entered before r can leave
Need(st, r) == CASE st.op = "Fill" -> {}
                 [] st.op \in {"Transpose", "AllGather", "AllGatherSum"} -> Ranks
                 [] st.op \in {"Gather", "GatherSum"} -> IF r = Root THEN Ranks ELSE {}
                 [] OTHER -> {Root}

\* the number process r brings to scalar step s: <<hi, lo>> stands for hi * B + lo, where B is
\* large enough for sums to stay apart and so large that sums need the digits of the element
\* type; hi may be negative where the type has a sign
SignedTypes == {"f64", "f32", "i32", "i64", "c64", "c32"}
Value(s, r) ==
    LET hi == ((s * 7 + r * 13) % 50) + 1  lo == ((s * 11 + r * 17) % 50) + 1 IN
    IF \/ prog[s].zz = "all"
       \/ prog[s].zz = "root" /\ r = Root
       \/ prog[s].zz = "others" /\ r # Root
       \/ prog[s].zz = "last" /\ r = np - 1
    THEN <<0, 0>>
    ELSE <<IF prog[s].sty \in SignedTypes /\ (s + r) % 3 = 0 THEN 0 - hi ELSE hi, lo>>
Plus(v, w) == <<v[1] + w[1], v[2] + w[2]>>

Contribution(s, r) ==
    LET st == prog[s] IN
    CASE st.op \in {"Transpose", "Gather", "AllGather"} -> pen[st.d][st.o][r]
      [] st.op = "Scatter" -> IF r = Root THEN Global(st.d, st.g) ELSE None
      [] st.op \in Scalar -> Value(s, r)
      [] OTHER -> None

Enter(r) ==
    /\ ~inside[r] /\ pc[r] <= Len(prog)
    /\ inside' = [inside EXCEPT ![r] = TRUE]
    /\ LET s == pc[r] IN
       box' = IF s \in DOMAIN box THEN [box EXCEPT ![s] = @ @@ (r :> Contribution(s, r))]
                                  ELSE box @@ (s :> (r :> Contribution(s, r)))
    /\ UNCHANGED <<np, dec, part, prog, pc, pen, last>>

Entered(s) == IF s \in DOMAIN box THEN DOMAIN box[s] ELSE {}

\* an array over a set of positions, taken element by element from the pencils in the box
Collect(d, o, s, rows, cols, r0, c0) ==
    [i \in 0..(rows - 1), j \in 0..(cols - 1) |->
        LET q == Owner(d, o, r0 + i, c0 + j) IN
        box[s][q][r0 + i - Row0(d, o, q), c0 + j - Col0(d, o, q)]]

Sum(s) == FoldLeft(LAMBDA x, q : Plus(x, box[s][q - 1]), <<0, 0>>, [q \in 1..np |-> q])

Result(s, r) ==
    LET st == prog[s]  d == st.d  o == st.o  n == dec[d].n  t == Other(o) IN
    CASE st.op = "Fill" -> Part(d, o, r, st.g)
      [] st.op = "Transpose" ->
           Collect(d, o, s, Rows(d, t, r), Cols(d, t, r), Row0(d, t, r), Col0(d, t, r))
      [] st.op = "AllGather" -> Collect(d, o, s, n[1], n[2], 0, 0)
      [] st.op = "Gather" -> IF r = Root THEN Collect(d, o, s, n[1], n[2], 0, 0) ELSE None
      [] st.op = "Scatter" ->
           [i \in 0..(Rows(d, o, r) - 1), j \in 0..(Cols(d, o, r) - 1) |->
               box[s][Root][Row0(d, o, r) + i, Col0(d, o, r) + j]]
      [] st.op = "Bcast" -> box[s][Root]
      [] st.op = "GatherSum" -> IF r = Root THEN Sum(s) ELSE None
      [] OTHER -> Sum(s)

CanExit(r) == inside[r] /\ Need(prog[pc[r]], r) \subseteq Entered(pc[r])

Exit(r) ==
    /\ CanExit(r)
    /\ LET s == pc[r]  st == prog[s]  res == Result(s, r) IN
       /\ last' = [last EXCEPT ![r] = res]
       /\ pen' = CASE st.op \in {"Fill", "Scatter"} -> [pen EXCEPT ![st.d][st.o][r] = res]
                   [] st.op = "Transpose" -> [pen EXCEPT ![st.d][Other(st.o)][r] = res]
                   [] OTHER -> pen
       /\ pc' = [pc EXCEPT ![r] = s + 1]
       /\ inside' = [inside EXCEPT ![r] = FALSE]
       \* the box is emptied when nobody needs it any more
       /\ box' = IF \A q \in Ranks : q = r \/ pc[q] > s
                 THEN [k \in DOMAIN box \ {s} |-> box[k]] ELSE box
    /\ UNCHANGED <<np, dec, part, prog>>

Start0(p) ==
    /\ np = p
    /\ prog = <<>>
    /\ pc = [r \in 0..(p - 1) |-> 1]
    /\ inside = [r \in 0..(p - 1) |-> FALSE]
    /\ box = <<>>
    /\ pen = [d \in 1..NDec |-> [o \in {"x", "y"} |-> [r \in 0..(p - 1) |-> None]]]
    /\ last = [r \in 0..(p - 1) |-> None]

Init ==
    \E p \in NProcs :
      /\ Start0(p)
      /\ dec \in [1..NDec -> [n : {e \in Extents \X Extents : e[1] >= p /\ e[2] >= p}, ty : Types]]
      /\ part \in [1..NDec -> UNION {[x : Balanced(e[2], p), y : Balanced(e[1], p)] :
                                       e \in {dec[d].n : d \in 1..NDec}}]
      /\ \A d \in 1..NDec : /\ SumTo(part[d].x, p) = dec[d].n[2]
                            /\ SumTo(part[d].y, p) = dec[d].n[1]

Done == (\A r \in Ranks : pc[r] = Depth + 1) /\ UNCHANGED vars
Next == Extend \/ (\E r \in Ranks : Enter(r) \/ Exit(r)) \/ Done
Spec == /\ Init /\ [][Next]_vars /\ WF_vars(Extend)
        /\ \A r \in 0..(Max(NProcs) - 1) : WF_vars(r \in Ranks /\ Enter(r)) /\ WF_vars(r \in Ranks /\ Exit(r))

(***************************************************************************)
(* Invariants                                                              *)
(***************************************************************************)
Tiles == \A d \in 1..NDec : \A o \in {"x", "y"} :
    /\ \A r \in Ranks : Rows(d, o, r) >= 1 /\ Cols(d, o, r) >= 1
    /\ \A i \in 0..(dec[d].n[1] - 1), j \in 0..(dec[d].n[2] - 1) :
         Cardinality({r \in Ranks : /\ Row0(d, o, r) <= i /\ i < Row0(d, o, r) + Rows(d, o, r)
                                    /\ Col0(d, o, r) <= j /\ j < Col0(d, o, r) + Cols(d, o, r)}) = 1
    /\ \A r, q \in Ranks : Rows(d, o, r) * Cols(d, o, r) - Rows(d, o, q) * Cols(d, o, q)
                             \in {-dec[d].n[1], -dec[d].n[2], 0, dec[d].n[1], dec[d].n[2]}
\* between steps every pencil is the process's part of one and the same global array
Coherent == \A r \in Ranks : ~inside[r] =>
    LET a == IF pc[r] = 1 THEN NoPlan ELSE prog[pc[r] - 1].after IN
    \A d \in 1..NDec : \A o \in {"x", "y"} :
      pen[d][o][r] = IF a[d][o] = 0 THEN None ELSE Part(d, o, r, a[d][o])
\* what the collective operations hand out
Results == \A r \in Ranks : (~inside[r] /\ pc[r] > 1) =>
    LET s == pc[r] - 1  st == prog[s] IN
    /\ st.op = "AllGather" => last[r] = Global(st.d, st.after[st.d][st.o])
    /\ st.op = "Gather" => last[r] = IF r = Root THEN Global(st.d, st.after[st.d][st.o]) ELSE None
    /\ st.op = "Bcast" => last[r] = Value(s, Root)
    /\ st.op = "AllGatherSum" => last[r] = FoldSet(LAMBDA q, x : Plus(x, Value(s, q)), <<0, 0>>, Ranks)
    /\ st.op = "GatherSum" => last[r] = IF r = Root THEN FoldSet(LAMBDA q, x : Plus(x, Value(s, q)), <<0, 0>>, Ranks)
                                        ELSE None
\* nobody is more than one exchange ahead of a process it depends on
Bounded == Cardinality(DOMAIN box) <= Depth
Finishes == <>(\A r \in Ranks : pc[r] = Depth + 1)

(***************************************************************************)
(* Programs for the code                                                   *)
(***************************************************************************)
PlanInit == /\ \E p \in NProcs : Start0(p)
            /\ dec = <<>> /\ part = <<>>
PickDec == /\ Len(dec) < NDec
           /\ \E n0, n1 \in {e \in Extents : e >= np} : \E ty \in Types :
                dec' = Append(dec, [n |-> <<n0, n1>>, ty |-> ty])
           /\ UNCHANGED <<np, part, prog, pc, inside, box, pen, last>>
\* shapes close to, or easily taken for, one that is already in use
Shifts == {1, 2, 10, 16, 32, 64, 100, 128, 256, 512, 1000, 1024}
Near(n) ==
    {<<n[2], n[1]>>, <<n[1] + 1, n[2]>>, <<n[1], n[2] + 1>>, <<2 * n[1], n[2]>>, <<n[1], 2 * n[2]>>,
     <<n[1] + n[2], n[2]>>, <<n[1] + 1, n[2] - 1>>, <<2 * n[1], n[2] \div 2>>, <<n[1] \div 2, 2 * n[2]>>}
    \cup {<<n[1] - b, n[2] + b * s>> : s \in Shifts, b \in {1, 2, 3}}
    \cup {<<n[1] + b * s, n[2] - b>> : s \in Shifts, b \in {1, 2, 3}}
    \cup {<<n[1] + s, n[2]>> : s \in Shifts} \cup {<<n[1], n[2] + s>> : s \in Shifts}
Fits(n) == n[1] >= np /\ n[2] >= np /\ n[1] + n[2] < 2500 /\ n[1] * n[2] < 40000
PickNear ==
    /\ Len(dec) < NDec
    /\ IF dec = <<>> THEN \E n0, n1 \in {e \in Extents : e >= np} :
                             dec' = <<[n |-> <<n0, n1>>, ty |-> "f64"]>>
       ELSE \E d \in 1..Len(dec) : \E n \in {m \in Near(dec[d].n) : Fits(m)} :
               /\ \A q \in 1..Len(dec) : dec[q].n # n
               /\ dec' = Append(dec, [n |-> n, ty |-> "f64"])
    /\ UNCHANGED <<np, part, prog, pc, inside, box, pen, last>>
\* programs through a space: its physical shape and its spectral shape
RealKinds == {"CH", "DI", "NE", "DN", "BA", "BB"}
SpLen(k, n) == CASE k = "R2" -> n \div 2 + 1 [] k \in {"DI", "NE", "DN"} -> n - 2
               [] k \in {"BA", "BB"} -> n - 4 [] OTHER -> n
MinLen(k) == CASE k = "CH" -> 2 [] k \in {"DI", "NE", "DN"} -> 4 [] k \in {"BA", "BB"} -> 8 [] OTHER -> 1
SpacePairs == (RealKinds \X RealKinds) \cup ({"R2"} \X RealKinds) \cup {<<"C2", "R2">>, <<"C2", "C2">>}
PickSpace ==
    /\ NDec = 2 /\ Len(dec) = 0
    /\ \E fam \in {RandomElement({"rr", "Rr", "CR", "CC"})} :
       \E k \in {RandomElement({q \in SpacePairs :
                   fam = (IF q[1] = "C2" THEN IF q[2] = "C2" THEN "CC" ELSE "CR"
                          ELSE IF q[1] = "R2" THEN "Rr" ELSE "rr")})} :
       \E n0 \in {e \in Extents : e >= MinLen(k[1]) /\ e >= np /\ SpLen(k[1], e) >= np} :
       \E n1 \in {e \in Extents : e >= MinLen(k[2]) /\ e >= np /\ SpLen(k[2], e) >= np} :
         dec' = << [n |-> <<n0, n1>>, ty |-> IF k[2] = "C2" THEN "c64" ELSE "f64",
                    sp |-> <<k[1], ToString(n0), k[2], ToString(n1)>>],
                   [n |-> <<SpLen(k[1], n0), SpLen(k[2], n1)>>,
                    ty |-> IF k[1] \in {"R2", "C2"} THEN "c64" ELSE "f64"] >>
    /\ UNCHANGED <<np, part, prog, pc, inside, box, pen, last>>
PlanStep == /\ Len(dec) = NDec /\ Extend0
            /\ UNCHANGED <<np, dec, part, inside, box, pen, last, pc>>
PlanWrite == /\ Len(prog) = Depth /\ last[0] = None
             /\ last' = [r \in Ranks |-> <<1>>]
             /\ UNCHANGED <<np, dec, part, prog, pc, inside, box, pen>>
             /\ CSVWrite("%1$s", <<ToJson([np |-> np, dec |-> dec, steps |-> prog])>>, IOEnv.OUT)
SpecPlan == PlanInit /\ [][PickDec \/ PlanStep \/ PlanWrite]_vars
SpecPlanNear == PlanInit /\ [][PickNear \/ PlanStep \/ PlanWrite]_vars
SpecPlanSpace == PlanInit /\ [][PickSpace \/ PlanStep \/ PlanWrite]_vars
=============================================================================
