------------------------------- MODULE Helpers -------------------------------
(***************************************************************************)
(* The helpers of utils.rs (C17).  Values are counted in ticks of 1e-4;    *)
(* the tolerance is ten ticks.  A comparison walks over the pairs:         *)
(*                                                                         *)
(*   comparing --Step--> comparing | failed ;  comparing --End--> passed   *)
(*                                                                         *)
(* A pair passes when each component differs by less than the tolerance,   *)
(* which NaN and infinite differences do not.  A difference of exactly     *)
(* the tolerance is not produced (binary numbers cannot tell).  The axis   *)
(* helpers are single steps.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Json, IOUtils, CSV

CONSTANTS Deep, Mode     \* "eq" or "axis"

VARIABLES case, pos, outcome
vars == <<case, pos, outcome>>

Tol == 10
NaN == 999999
Inf == 888888
Special(x) == x \in {NaN, Inf, -Inf}
Near(a, b) == ~Special(a) /\ ~Special(b) /\ a - b < Tol /\ b - a < Tol
PairNear(p, q) == Near(p[1], q[1]) /\ Near(p[2], q[2])

Prod(s) == FoldLeft(LAMBDA x, y : x * y, 1, s)

(***************************************************************************)
(* Comparisons: an offence, or several, placed in an array                 *)
(***************************************************************************)
Offs == {0, 9, -9, 11, -11} \cup (IF Deep THEN {1, -1, 12, 30, -30, 20000, -20000} ELSE {20000, -20000})
Vals == {<<0, 0>>, <<5000, -12345>>, <<-30000, 7>>}
\* pairs of entries: <<value, other value>>, per component offsets or special values
Offences(cplx) ==
    {<<v, <<v[1] + x, v[2] + y>>>> : v \in Vals, x \in Offs, y \in (IF cplx THEN Offs ELSE {0})}
    \cup UNION {{<<<<s, 3>>, <<1, 3>>>>, <<<<1, 3>>, <<s, 3>>>>} : s \in {NaN, Inf, -Inf}}
    \cup (IF cplx THEN UNION {{<<<<3, s>>, <<3, 1>>>>, <<<<3, 1>>, <<3, s>>>>} : s \in {NaN, Inf, -Inf}}
                  ELSE {})
    \cup {<<<<NaN, 0>>, <<NaN, 0>>>>}
Shapes == {<<1>>, <<2>>, <<3>>, <<7>>, <<2, 3>>, <<3, 1>>, <<2, 2, 2>>, <<1, 3, 2>>}
          \cup (IF Deep THEN {<<12>>, <<33>>, <<4, 5>>, <<2, 2, 1, 3>>} ELSE {<<17>>})
\* the value of the other entries
Plain(i, cplx) == <<((i * 37) % 101) - 50, IF cplx THEN ((i * 53) % 89) - 40 ELSE 0>>
Small == {0, 9, -9}
Wiggle(i, cplx) == LET p == Plain(i, cplx) IN
    <<p[1] + ((i % 3) - 1) * 9, IF cplx THEN p[2] + (((i + 1) % 3) - 1) * 9 ELSE 0>>

Placed(shape, cplx, at, o) ==
    LET n == Prod(shape) IN
    [h |-> "eq", cplx |-> cplx, shape |-> shape,
     a |-> [i \in 1..n |-> IF i = at THEN o[1] ELSE Plain(i, cplx)],
     b |-> [i \in 1..n |-> IF i = at THEN o[2] ELSE Wiggle(i, cplx)]]

Ends(n) == {1, n, (n + 1) \div 2}
ChooseEq ==
    \E cplx \in BOOLEAN : \E shape \in Shapes :
    LET n == Prod(shape) IN
    \/ \E o \in Offences(cplx) :
         \E at \in (IF Deep \/ (o[1] = <<0, 0>> /\ ~Special(o[2][1])) THEN 1..n ELSE Ends(n)) :
           case = Placed(shape, cplx, at, o)
    \* two opposite offences: they must not cancel
    \/ /\ n >= 2
       /\ \E i \in 1..n : \E j \in 1..n : i < j /\
            case = [Placed(shape, cplx, i, <<<<0, 0>>, <<11, 0>>>>) EXCEPT !.a[j] = <<0, 0>>, !.b[j] = <<-11, 0>>]
    \* nothing to compare
    \/ case = [h |-> "eq", cplx |-> cplx, shape |-> [a \in 1..Len(shape) |-> IF a = 1 THEN 0 ELSE shape[a]],
               a |-> <<>>, b |-> <<>>]

Step == /\ case.h = "eq" /\ outcome = "comparing" /\ pos <= Len(case.a)
        /\ IF PairNear(case.a[pos], case.b[pos])
           THEN pos' = pos + 1 /\ UNCHANGED outcome
           ELSE outcome' = "failed" /\ UNCHANGED pos
        /\ UNCHANGED case
End ==  /\ case.h = "eq" /\ outcome = "comparing" /\ pos > Len(case.a)
        /\ outcome' = "passed" /\ UNCHANGED <<case, pos>>

(***************************************************************************)
(* Axis helpers                                                            *)
(***************************************************************************)
Ext == {0, 1, 2, 5}
ShapesOf(dim) == [1..dim -> IF dim >= 3 /\ ~Deep THEN {0, 2, 3} ELSE Ext]
ChooseAxis ==
    \E dim \in 1..4 : \E shape \in ShapesOf(dim) : \E axis \in 1..dim :
    \E size \in {0, 1, 2, 3, 6} \cup {shape[i] : i \in 1..dim} : \E h \in {"resize", "check"} :
      case = [h |-> h, shape |-> shape, axis |-> axis - 1, size |-> size]
Resized(c) == [c.shape EXCEPT ![c.axis + 1] = c.size]
Axis == /\ case.h \in {"resize", "check"} /\ outcome = "comparing"
        /\ outcome' = IF case.h = "check" /\ case.shape[case.axis + 1] # case.size THEN "failed"
                                                                              ELSE "passed"
        /\ UNCHANGED <<case, pos>>

Init == /\ pos = 1 /\ outcome = "comparing"
        /\ \/ Mode = "eq" /\ ChooseEq
           \/ Mode = "axis" /\ ChooseAxis
Emit == (outcome' \in {"passed", "failed"}) =>
            CSVWrite("%1$s", <<ToJson([c |-> case, v |-> outcome',
                 out |-> IF case.h = "resize" THEN Resized(case) ELSE <<>>])>>, IOEnv.OUT)
Next == Step \/ End \/ Axis
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
SpecEmit == Init /\ [][Next /\ Emit]_vars

(***************************************************************************)
(* Acceptance is the conjunction over all entries and both components      *)
(***************************************************************************)
Exactly == LET all == \A i \in 1..Len(case.a) : PairNear(case.a[i], case.b[i])
           IN case.h = "eq" => (outcome = "passed" => all) /\ (outcome = "failed" => ~all)
\* the decision does not depend on the order of the arguments
Symmetric == case.h = "eq" => \A i \in 1..Len(case.a) :
                 PairNear(case.a[i], case.b[i]) = PairNear(case.b[i], case.a[i])
NoTie == case.h = "eq" => \A i \in 1..Len(case.a) : \A c \in 1..2 :
             case.a[i][c] - case.b[i][c] \notin {Tol, -Tol}
OneAxis == case.h = "resize" => LET r == Resized(case) IN
             /\ Len(r) = Len(case.shape) /\ r[case.axis + 1] = case.size
             /\ \A i \in 1..Len(r) : i # case.axis + 1 => r[i] = case.shape[i]
Decides == <>(outcome # "comparing")
=============================================================================
