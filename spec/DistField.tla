------------------------------ MODULE DistField ------------------------------
(***************************************************************************)
(* Operations of a distributed two-dimensional space (C15).  Spectral and  *)
(* orthogonal coefficients live in x-pencils, physical values in           *)
(* y-pencils.  Every operation is: work along the axis that is whole here, *)
(* exchange, work along the other axis, and for conversions and gradients  *)
(* exchange back.                                                          *)
(*                                                                         *)
(* What happens along an axis is opaque: an element of the result is the   *)
(* term <<tag, position, the whole lane it was computed from>>.  Equality  *)
(* of terms is then equality for whatever the bases compute, and a lane    *)
(* that is incomplete or out of order cannot go unnoticed.                 *)
(*                                                                         *)
(* Checked: on every process the result is its part of what the serial     *)
(* space computes; every intermediate shape has a decomposition; local     *)
(* arrays fit the decomposition they are exchanged with; no schedule gets  *)
(* stuck.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS NProcs, Lens,       \* axes: records [ph |-> .., sp |-> .., or |-> ..]
          Operations

VARIABLES p, ax, op, part,    \* part: length -> sizes per process
          stage, loc, box
vars == <<p, ax, op, part, stage, loc, box>>
Ranks == 0..(p - 1)

SumTo(s, r) == FoldLeft(LAMBDA x, q : x + s[q], 0, [q \in 1..r |-> q - 1])
Balanced(n, q) == {s \in [0..(q - 1) -> {n \div q, (n \div q) + 1}] : SumTo(s, q) = n}

\* a pencil of shape s: orientation "x" splits axis 2, "y" axis 1
Rows(s, o, r) == IF o = "x" THEN s[1] ELSE part[s[1]][r]
Cols(s, o, r) == IF o = "x" THEN part[s[2]][r] ELSE s[2]
Row0(s, o, r) == IF o = "x" THEN 0 ELSE SumTo(part[s[1]], r)
Col0(s, o, r) == IF o = "x" THEN SumTo(part[s[2]], r) ELSE 0
Arr(rows, cols, F(_, _)) == [i \in 0..(rows - 1), j \in 0..(cols - 1) |-> F(i, j)]
PartOf(A, s, o, r) == Arr(Rows(s, o, r), Cols(s, o, r),
                          LAMBDA i, j : A[Row0(s, o, r) + i, Col0(s, o, r) + j])
Owner(s, o, i, j) == CHOOSE r \in Ranks :
    /\ Row0(s, o, r) <= i /\ i < Row0(s, o, r) + Rows(s, o, r)
    /\ Col0(s, o, r) <= j /\ j < Col0(s, o, r) + Cols(s, o, r)

\* along axis 1 (columns of length rows) or 2; the output has m elements
Along1(A, rows, cols, m) == Arr(m, cols, LAMBDA i, j : <<"a1", i, [k \in 1..rows |-> A[k - 1, j]]>>)
Along2(A, rows, cols, m) == Arr(rows, m, LAMBDA i, j : <<"a2", j, [k \in 1..cols |-> A[i, k - 1]]>>)

(***************************************************************************)
(* Plans: where an operation starts, and its two axes with what goes in    *)
(* and out                                                                 *)
(***************************************************************************)
In(o) == CASE o = "Forward" -> "ph" [] o = "FromOrtho" -> "or" [] OTHER -> "sp"
Out(o) == CASE o = "Backward" -> "ph" [] o \in {"ToOrtho", "Gradient"} -> "or" [] OTHER -> "sp"
First(o) == IF o = "Forward" THEN 2 ELSE 1
StartsIn(o) == IF o = "Forward" THEN "y" ELSE "x"
EndsIn(o) == IF o = "Backward" THEN "y" ELSE "x"
ShapeIn == <<ax[1][In(op)], ax[2][In(op)]>>
ShapeOut == <<ax[1][Out(op)], ax[2][Out(op)]>>
Middle == IF First(op) = 1 THEN <<ax[1][Out(op)], ax[2][In(op)]>> ELSE <<ax[1][In(op)], ax[2][Out(op)]>>
Input == Arr(ShapeIn[1], ShapeIn[2], LAMBDA i, j : <<i, j>>)
Step(A, rows, cols, a) == IF a = 1 THEN Along1(A, rows, cols, ax[1][Out(op)])
                                   ELSE Along2(A, rows, cols, ax[2][Out(op)])
Serial == LET f == First(op)  A == Step(Input, ShapeIn[1], ShapeIn[2], f)
          IN Step(A, Middle[1], Middle[2], 3 - f)

\* the shapes a space prepares decompositions for
Known == {<<ax[1].ph, ax[2].ph>>, <<ax[1].sp, ax[2].ph>>, <<ax[1].ph, ax[2].sp>>,
          <<ax[1].sp, ax[2].sp>>}

Lengths == {ax[1].ph, ax[1].sp, ax[1].or, ax[2].ph, ax[2].sp, ax[2].or}
Init == /\ p \in NProcs
        /\ ax \in {a \in Lens \X Lens : \A l \in {a[1].ph, a[1].sp, a[2].ph, a[2].sp} : l >= p}
        /\ op \in Operations
        /\ part \in [Lengths -> UNION {Balanced(m, p) : m \in Lengths}]
        /\ \A m \in Lengths : SumTo(part[m], p) = m
        /\ stage = [r \in Ranks |-> "start"]
        /\ loc = [r \in Ranks |-> PartOf(Input, ShapeIn, StartsIn(op), r)]
        /\ box = [e \in {1, 2} |-> [r \in Ranks |-> <<>>]]

Oth(o) == IF o = "x" THEN "y" ELSE "x"
\* the exchange e is entered with the array A of shape s in orientation o
Put(e, r, A) == box' = [box EXCEPT ![e][r] = A]
Take(e, s, o, r) == LET t == Oth(o) IN
    Arr(Rows(s, t, r), Cols(s, t, r), LAMBDA i, j :
       LET gi == Row0(s, t, r) + i  gj == Col0(s, t, r) + j  q == Owner(s, o, gi, gj) IN
       box[e][q][gi - Row0(s, o, q), gj - Col0(s, o, q)])
Full(e) == \A r \in Ranks : box[e][r] # <<>>

Work1(r) ==
    /\ stage[r] = "start"
    /\ LET A == Step(loc[r], Rows(ShapeIn, StartsIn(op), r), Cols(ShapeIn, StartsIn(op), r), First(op))
       IN Put(1, r, A) /\ loc' = [loc EXCEPT ![r] = A]
    /\ stage' = [stage EXCEPT ![r] = "exchange"]
    /\ UNCHANGED <<p, ax, op, part>>
Work2(r) ==
    /\ stage[r] = "exchange" /\ Full(1)
    /\ LET B == Take(1, Middle, StartsIn(op), r)
           t == Oth(StartsIn(op))
           A == Step(B, Rows(Middle, t, r), Cols(Middle, t, r), 3 - First(op))
       IN /\ loc' = [loc EXCEPT ![r] = A]
          /\ IF EndsIn(op) = t THEN stage' = [stage EXCEPT ![r] = "done"] /\ UNCHANGED box
             ELSE stage' = [stage EXCEPT ![r] = "back"] /\ Put(2, r, A)
    /\ UNCHANGED <<p, ax, op, part>>
Back(r) ==
    /\ stage[r] = "back" /\ Full(2)
    /\ loc' = [loc EXCEPT ![r] = Take(2, ShapeOut, "y", r)]
    /\ stage' = [stage EXCEPT ![r] = "done"]
    /\ UNCHANGED <<p, ax, op, part, box>>
Next == \E r \in Ranks : Work1(r) \/ Work2(r) \/ Back(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

SameAsSerial == \A r \in Ranks : stage[r] = "done" => loc[r] = PartOf(Serial, ShapeOut, EndsIn(op), r)
Prepared == Middle \in Known /\ ShapeOut \in Known
\* what is put into an exchange has the extents of that decomposition's pencil
Fits == \A r \in Ranks :
    /\ box[1][r] # <<>> => DOMAIN box[1][r] = (0..(Rows(Middle, StartsIn(op), r) - 1))
                                               \X (0..(Cols(Middle, StartsIn(op), r) - 1))
    /\ box[2][r] # <<>> => DOMAIN box[2][r] = (0..(Rows(ShapeOut, "y", r) - 1))
                                               \X (0..(Cols(ShapeOut, "y", r) - 1))
Finishes == <>(\A r \in Ranks : stage[r] = "done")

\* for the configuration file: an orthogonal axis, a composite one, a real Fourier one
Axes34 == {[ph |-> 3, sp |-> 3, or |-> 3], [ph |-> 4, sp |-> 3, or |-> 4], [ph |-> 4, sp |-> 3, or |-> 3]}
Axes23 == {[ph |-> 2, sp |-> 2, or |-> 2], [ph |-> 3, sp |-> 2, or |-> 3], [ph |-> 3, sp |-> 2, or |-> 2]}
AllOps == {"Forward", "Backward", "ToOrtho", "FromOrtho", "Gradient"}
=============================================================================
