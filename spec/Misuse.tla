------------------------------- MODULE Misuse -------------------------------
(***************************************************************************)
(* Distributed operations called with arrays that do not fit, or in the    *)
(* wrong role (C18).                                                       *)
(*                                                                         *)
(* Every operation takes, on each process, arrays of one shape only: the   *)
(* process's own pencil of a certain orientation and representation, or    *)
(* the global array.  A process compares what it was given before it       *)
(* brings anything to the exchange: it is either refused, and then the     *)
(* call has no effect at all, or it takes part.  If all processes are      *)
(* refused, the next exchange finds nothing left over.                     *)
(*                                                                         *)
(* Representations: "phys", "spec", "orth" (of a space), "dec" (of a       *)
(* decomposition used directly).                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, IOUtils, CSV

CONSTANTS NProcs, Extents, Depth, Levels, LateCheck

Other(o) == IF o = "x" THEN "y" ELSE "x"

(***************************************************************************)
(* Calls: [lvl, op, o, form, role, in, out]                                *)
(*   role: "fit" root variants on the root, the others elsewhere; "misfit" *)
(*   in, out: how the arrays are spoilt ("ok": they fit, "-": none taken)  *)
(***************************************************************************)
Spoilt == {"ok", "r+", "r-", "c+", "c-", "rc", "T", "oth", "glb", "pen", "flat", "x2", "rep"}
Collective == {"Transpose", "Gather", "AllGather", "Scatter"}
SpaceOps == {"Forward", "Backward", "ToOrtho", "FromOrtho", "Gradient"}

\* representation and kind of array a slot takes: <<rep, "x" | "y" | "glb" | "-">>; root: the caller runs
\* the root variant
Takes(c, slot, root) ==
    CASE c.op = "Transpose" -> <<c.lvl, IF slot = "in" THEN c.o ELSE Other(c.o)>>
      [] c.op = "AllGather" -> <<c.lvl, IF slot = "in" THEN c.o ELSE "glb">>
      [] c.op = "Gather" -> <<c.lvl, IF slot = "in" THEN c.o
                                     ELSE IF root /\ c.form = "inplace" THEN "glb" ELSE "-">>
      [] c.op = "Scatter" -> <<c.lvl, IF slot = "in" THEN IF root THEN "glb" ELSE "-"
                                      ELSE IF c.form = "inplace" THEN c.o ELSE "-">>
      [] c.op = "CheckShape" -> <<c.lvl, IF slot = "in" THEN c.o ELSE "-">>
      [] c.op = "Lookup" -> <<c.lvl, IF slot = "in" THEN "glb" ELSE "-">>
      [] OTHER -> LET f == CASE c.op = "Forward" -> <<"phys", "y">> [] c.op = "FromOrtho" -> <<"orth", "x">>
                             [] OTHER -> <<"spec", "x">>
                      t == CASE c.op = "Backward" -> <<"phys", "y">>
                             [] c.op \in {"ToOrtho", "Gradient"} -> <<"orth", "x">>
                             [] OTHER -> <<"spec", "x">>
                  IN IF slot = "in" THEN f ELSE IF c.form = "inplace" THEN t ELSE <<t[1], "-">>

\* shapes: [rep -> [x |-> pencil, y |-> pencil, glb |-> global]] of one process
Wanted(c, slot, root, sh) ==
    LET t == Takes(c, slot, root) IN
    IF t[2] = "-" THEN <<>> ELSE sh[t[1]][t[2]]

\* the array handed over instead
Given(c, slot, root, sh) ==
    LET t == Takes(c, slot, root)
        k == IF slot = "in" THEN c.in ELSE c.out
        w == Wanted(c, slot, root, sh)
        less(v) == IF v = 0 THEN 0 ELSE v - 1
        next(r) == CASE r = "phys" -> "orth" [] r = "orth" -> "spec" [] r = "spec" -> "phys" [] OTHER -> r
    IN IF t[2] = "-" THEN <<>> ELSE
       CASE k = "r+" -> <<w[1] + 1, w[2]>>   [] k = "r-" -> <<less(w[1]), w[2]>>
         [] k = "c+" -> <<w[1], w[2] + 1>>   [] k = "c-" -> <<w[1], less(w[2])>>
         [] k = "rc" -> <<w[1] + 1, less(w[2])>>
         [] k = "T" -> <<w[2], w[1]>>
         [] k = "oth" -> IF t[2] = "glb" THEN sh[t[1]].y ELSE sh[t[1]][Other(t[2])]
         [] k = "glb" -> sh[t[1]].glb
         [] k = "pen" -> sh[t[1]].x
         [] k = "flat" -> <<1, w[1] * w[2]>>
         [] k = "x2" -> <<2 * w[1], w[2]>>
         [] k = "rep" -> sh[next(t[1])][t[2]]
         [] OTHER -> w

Fits(c, root, sh) == \A slot \in {"in", "out"} : Given(c, slot, root, sh) = Wanted(c, slot, root, sh)

\* does process r run the root variant?
RootVariant(c, r) == IF c.op \in {"Gather", "Scatter"} THEN (r = 0) = (c.role = "fit") ELSE TRUE
\* a call in the wrong role is made by the misusing processes only; no other process takes part
Refused(c, r, sh) == c.role = "misfit" \/ ~Fits(c, RootVariant(c, r), sh)
Local(c) == c.op \in {"CheckShape", "Lookup"}

Calls(lvls) ==
    [lvl : lvls, op : Collective \cup {"CheckShape", "Lookup"}, o : {"x", "y"}, form : {"alloc", "inplace"},
     role : {"fit", "misfit"}, in : Spoilt, out : Spoilt]
    \cup (IF "phys" \in lvls THEN
       [lvl : {"space"}, op : SpaceOps, o : {"x"}, form : {"alloc", "inplace"}, role : {"fit"},
        in : Spoilt, out : Spoilt] ELSE {})
Sane(c) == /\ c.in = "ok" \/ c.out = "ok"                     \* one slot spoilt at a time
           /\ c.role = "misfit" => c.op \in {"Gather", "Scatter"} /\ c.in = "ok" /\ c.out = "ok"
           /\ c.op = "Gradient" => c.form = "alloc"
           /\ c.op \in {"Transpose", "AllGather"} => c.form = "inplace"
           /\ Local(c) => c.form = "alloc" /\ c.role = "fit" /\ c.out = "ok" /\ c.lvl = "dec"
           /\ c.op = "Lookup" => c.o = "x"
           /\ c.lvl = "dec" => c.in # "rep" /\ c.out # "rep"

(***************************************************************************)
(* Model: one decomposition, processes run a list of calls                 *)
(***************************************************************************)
VARIABLES np, n, part, prog, pc, box, out
vars == <<np, n, part, prog, pc, box, out>>
Ranks == 0..(np - 1)
SumTo(s, r) == FoldLeft(LAMBDA x, q : x + s[q], 0, [q \in 1..r |-> q - 1])
Balanced(m, p) == {s \in [0..(p - 1) -> {m \div p, (m \div p) + 1}] : SumTo(s, p) = m}
Shapes(r) == [dec |-> [x |-> <<n[1], part.x[r]>>, y |-> <<part.y[r], n[2]>>, glb |-> n]]

\* the wrong-role callers
Takers(c) == IF c.role = "fit" THEN Ranks
             ELSE Ranks     \* root runs the variant of the others and the others the root's: all refused
Uniform(c) == \A r \in Takers(c) : Refused(c, r, Shapes(r)) = Refused(c, 0, Shapes(0))

Model == {q \in Calls(Levels) : Sane(q) /\ ~Local(q)}
Init == /\ \E p \in NProcs : np = p
        /\ n \in {e \in Extents \X Extents : e[1] >= np /\ e[2] >= np}
        /\ part \in {[x |-> a, y |-> b] : a \in Balanced(n[2], np), b \in Balanced(n[1], np)}
        /\ prog = <<>> /\ pc = [r \in 0..(np - 1) |-> 1]
        /\ box = [s \in 1..Depth |-> {}]
        /\ out = [r \in 0..(np - 1) |-> <<>>]
Extend == /\ Len(prog) < Depth /\ \A r \in Ranks : pc[r] = Len(prog) + 1
          /\ \E c \in Model :
                /\ Uniform(c) /\ prog' = Append(prog, c)
                \* every second call fits
                /\ Len(prog) % 2 = 1 => /\ c.in = "ok" /\ c.out = "ok" /\ c.role = "fit" /\ c.o = "x"
                                       /\ c.op \in {"AllGather", "Gather"} /\ c.form = "inplace"
          /\ UNCHANGED <<np, n, part, pc, box, out>>
\* whose contribution a process needs
Need(c, r) == IF c.op \in {"Transpose", "AllGather"} THEN Ranks
              ELSE IF c.op = "Gather" THEN IF r = 0 THEN Ranks ELSE {} ELSE {0}
Enter(r) == /\ pc[r] <= Len(prog) /\ r \notin box[pc[r]]
            /\ LET c == prog[pc[r]] IN
               IF Refused(c, r, Shapes(r)) /\ ~LateCheck
               THEN /\ out' = [out EXCEPT ![r] = Append(@, "refused")]
                    /\ pc' = [pc EXCEPT ![r] = @ + 1] /\ UNCHANGED box
               ELSE /\ box' = [box EXCEPT ![pc[r]] = @ \cup {r}] /\ UNCHANGED <<out, pc>>
            /\ UNCHANGED <<np, n, part, prog>>
Return(r) == /\ pc[r] <= Len(prog) /\ r \in box[pc[r]] /\ Need(prog[pc[r]], r) \subseteq box[pc[r]]
             /\ out' = [out EXCEPT ![r] = Append(@, IF Refused(prog[pc[r]], r, Shapes(r)) THEN "refused"
                                                    ELSE "returned")]
             /\ pc' = [pc EXCEPT ![r] = @ + 1]
             /\ UNCHANGED <<np, n, part, prog, box>>
Done == (\A r \in Ranks : pc[r] = Depth + 1) /\ UNCHANGED vars
Next == Extend \/ (\E r \in Ranks : Enter(r) \/ Return(r)) \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* nobody brings anything to an exchange with an array that does not fit
NothingSent == \A s \in 1..Len(prog) : \A r \in box[s] : ~Refused(prog[s], r, Shapes(r))
\* what a call returns is decided by its arguments alone
Decided == \A r \in Ranks : \A s \in 1..Len(out[r]) :
               (out[r][s] = "refused") = Refused(prog[s], r, Shapes(r))
\* a call that fits is never refused, and one that does not fit always is
Sound == \A s \in 1..Len(prog) : \A r \in Ranks :
           LET c == prog[s] IN
           (c.in = "ok" /\ c.out = "ok" /\ c.role = "fit") => ~Refused(c, r, Shapes(r))
Complete == \A s \in 1..Len(prog) : \A r \in Ranks :
           LET c == prog[s]  k == <<c.in, c.out>> IN
           (\E slot \in {"in", "out"} :
               /\ Takes(c, slot, RootVariant(c, r))[2] # "-"
               /\ (IF slot = "in" THEN c.in ELSE c.out) \in {"r+", "c+", "x2"})
             => Refused(c, r, Shapes(r))
Finishes == <>(\A r \in Ranks : pc[r] = Depth + 1)

(***************************************************************************)
(* Programs for the code                                                   *)
(***************************************************************************)
RealKinds == {"CH", "DI", "NE", "DN", "BA", "BB"}
SpLen(k, m) == CASE k = "R2" -> m \div 2 + 1 [] k \in {"DI", "NE", "DN"} -> m - 2
                 [] k \in {"BA", "BB"} -> m - 4 [] OTHER -> m
OrLen(k, m) == IF k = "R2" THEN m \div 2 + 1 ELSE m
\* sizes for which every operation is offered
MinLen(k) == CASE k = "CH" -> 2 [] k \in {"DI", "NE"} -> 5 [] k = "DN" -> 6 [] k \in {"BA", "BB"} -> 10
               [] OTHER -> 2
Pairs == (RealKinds \X RealKinds) \cup ({"R2"} \X RealKinds) \cup {<<"C2", "R2">>, <<"C2", "C2">>}
Sizes(k) == {e \in Extents : e >= MinLen(k) /\ SpLen(k, e) >= np}
PlanInit == /\ np \in NProcs
            /\ n = <<>> /\ part = <<>> /\ prog = <<>> /\ pc = 0 /\ box = 0 /\ out = 0
PlanSpace == /\ n = <<>>
             /\ \E k \in {RandomElement(Pairs)} : \E a \in {RandomElement(Sizes(k[1]))} :
                \E b \in {RandomElement(Sizes(k[2]))} :
                  /\ n' = <<k[1], ToString(a), k[2], ToString(b)>>
             /\ UNCHANGED <<np, part, prog, pc, box, out>>
All == {q \in Calls({"dec", "phys", "spec"}) : Sane(q)}
PlanCall == /\ n # <<>> /\ Len(prog) < Depth
            /\ \E op \in {RandomElement(Collective \cup SpaceOps \cup {"CheckShape", "Lookup"})} :
                 \E fit \in {RandomElement(1..4)} :
                 \E c \in {RandomElement({q \in All : q.op = op /\
                             /\ (fit = 1 => q.in = "ok" /\ q.out = "ok" /\ q.role = "fit")
                             /\ (fit = 2 /\ op \in {"Gather", "Scatter"} => q.role = "misfit")})} :
                   prog' = Append(prog, c)
            /\ UNCHANGED <<np, n, part, pc, box, out>>
PlanWrite == /\ Len(prog) = Depth /\ pc = 0 /\ pc' = 1
             /\ CSVWrite("%1$s", <<ToJson([np |-> np, sp |-> n, calls |-> prog])>>, IOEnv.OUT)
             /\ UNCHANGED <<np, n, part, prog, box, out>>
SpecPlan == PlanInit /\ [][PlanSpace \/ PlanCall \/ PlanWrite]_vars
=============================================================================
