-------------------------------- MODULE Args --------------------------------
(***************************************************************************)
(* Which arguments an operation has to accept and which it has to reject   *)
(* (C10).  The state machine of one call:                                  *)
(*                                                                         *)
(*   chosen --Call--> "result" (every element of the output is defined)    *)
(*                    "panic"  (nothing was produced)                      *)
(*                                                                         *)
(* A call matches when its input has the extent the base expects along the *)
(* axis, its output the extent the base produces, and all other extents    *)
(* agree; slices match when both lengths are exact; a space expects its    *)
(* shape on every axis.  Data that is not in standard (row-major) layout   *)
(* may be rejected; when it is not, the result has to be the right one.    *)
(* TLC enumerates the calls and writes each with its verdict.              *)
(***************************************************************************)
EXTENDS Bases, Json, IOUtils, CSV

CONSTANTS Levels,       \* subset of {"slice", "array", "space"}
          Deep          \* more shapes

VARIABLES call, outcome
vars == <<call, outcome>>

Ops == {"ToOrtho", "FromOrtho", "Backward", "Forward", "Gradient"}
LenOf(rep, k, n) == CASE rep = "spec" -> LenSpec(k, n) [] rep = "orth" -> LenOrth(k, n)
                      [] OTHER -> LenPhys(k, n)
RepIn(op) == CASE op = "FromOrtho" -> "orth" [] op = "Forward" -> "phys" [] OTHER -> "spec"
RepOut(op) == CASE op \in {"ToOrtho", "Gradient"} -> "orth" [] op = "Backward" -> "phys"
                [] OTHER -> "spec"
Orders(op) == IF op = "Gradient" THEN {0, 1, 2, 3} ELSE {0}

\* sizes: ordinary ones, even and odd
SizesOf(k) == IF Deep THEN {MinSize(k) + 1, MinSize(k) + 2, MinSize(k) + 5, MinSize(k) + 10}
                      ELSE {MinSize(k) + 1, MinSize(k) + 4}

\* extents to try instead of e
Around(e) == {x \in {e, 0, 1, e - 1, e + 1, e - 2, e + 2, e - 4, e + 4, 2 * e, 2 * e + 1, e \div 2, e \div 2 + 1,
                     2 * (e - 1), 2 * e - 1} : x >= 0}
Few(e) == {x \in {e, 0, e - 1, e + 1, 2 * e} : x >= 0}

(***************************************************************************)
(* Verdicts                                                                *)
(***************************************************************************)
\* shapes agree on all axes but `axis` (0-based)
OthersAgree(s, t, axis) == Len(s) = Len(t) /\ \A a \in 1..Len(s) : a # axis + 1 => s[a] = t[a]

MatchSlice(c) == /\ c.in[1] = LenOf(RepIn(c.op), c.k, c.n)
                 /\ c.out[1] = LenOf(RepOut(c.op), c.k, c.n)
MatchArray(c) == /\ c.axis < Len(c.in)
                 /\ c.in[c.axis + 1] = LenOf(RepIn(c.op), c.k, c.n)
                 /\ c.form \in {"inplace", "inplace_par"} =>
                      /\ Len(c.out) = Len(c.in)
                      /\ c.out[c.axis + 1] = LenOf(RepOut(c.op), c.k, c.n)
                      /\ OthersAgree(c.in, c.out, c.axis)
ShapeOf(rep, ax) == [a \in 1..Len(ax) |-> LenOf(rep, ax[a].k, ax[a].n)]
MatchSpace(c) == /\ c.in = ShapeOf(RepIn(c.op), c.ax)
                 /\ c.form \in {"inplace", "inplace_par"} => c.out = ShapeOf(RepOut(c.op), c.ax)
Match(c) == CASE c.lvl = "slice" -> MatchSlice(c) [] c.lvl = "array" -> MatchArray(c)
              [] OTHER -> MatchSpace(c)
Standard(c) == c.lay = "C"
Verdict(c) == IF ~Match(c) THEN "reject" ELSE IF Standard(c) THEN "accept" ELSE "either"

(***************************************************************************)
(* The calls                                                               *)
(***************************************************************************)
ChooseSlice ==
    \E k \in Kinds : \E n \in SizesOf(k) : \E op \in Ops : \E d \in Orders(op) :
    \E i \in Around(LenOf(RepIn(op), k, n)) : \E o \in Around(LenOf(RepOut(op), k, n)) :
      call = [lvl |-> "slice", k |-> k, n |-> n, op |-> op, d |-> d, form |-> "slice", axis |-> 0,
              in |-> <<i>>, out |-> <<o>>, lay |-> "C"]

Other == <<3, 2, 4>>     \* extents of the axes without a base
Shape(dim, axis, e) == [a \in 1..dim |-> IF a = axis + 1 THEN e ELSE Other[((a + axis) % 3) + 1]]
\* one extent of a shape changed
Changes(s) == {s} \cup UNION {{[s EXCEPT ![a] = x] : x \in Few(s[a])} : a \in 1..Len(s)}

ChooseArray ==
    \E k \in Kinds : \E n \in {MinSize(k) + 1, MinSize(k) + 4} : \E op \in Ops :
    \E d \in (IF op = "Gradient" THEN {0, 1} ELSE {0}) :
    \E dim \in 1..(IF Deep THEN 4 ELSE 3) : \E axis \in 0..(dim - 1) :
    LET s == Shape(dim, axis, LenOf(RepIn(op), k, n))
        t == Shape(dim, axis, LenOf(RepOut(op), k, n))
        base == [lvl |-> "array", k |-> k, n |-> n, op |-> op, d |-> d, axis |-> axis, lay |-> "C"]
        Mk(form, i, o, ax, lay) == [base EXCEPT !.axis = ax, !.lay = lay] @@
                                   [form |-> form, in |-> i, out |-> o]
    IN \/ \E form \in {"alloc", "par"} : \E i \in Changes(s) :
            call = Mk(form, i, t, axis, "C")
       \/ \E form \in {"inplace", "inplace_par"} :
            \/ \E i \in Changes(s) : call = Mk(form, i, t, axis, "C")
            \/ \E o \in Changes(t) : call = Mk(form, s, o, axis, "C")
            \* both changed in the same way: other axes still agree
            \/ \E a \in (1..dim) \ {axis + 1} : \E x \in {0, 1, 7} :
                 call = Mk(form, [s EXCEPT ![a] = x], [t EXCEPT ![a] = x], axis, "C")
            \/ call = Mk(form, t, s, axis, "C")
       \/ \E form \in {"alloc", "par", "inplace", "inplace_par"} :
            \/ \E ax \in {dim, dim + 1, 7} : call = Mk(form, s, t, ax, "C")
            \/ \E lay \in {"F", "S", "Fin", "Fout", "Sin", "Sout"} :
                 /\ (form \in {"alloc", "par"} => lay \in {"Fin", "Sin"})
                 /\ call = Mk(form, s, t, axis, lay)

Combos ==
    IF Deep
    THEN {<<a, b>> : a \in ChebKinds, b \in ChebKinds} \cup {<<"R2", b>> : b \in ChebKinds}
         \cup {<<"C2", "R2">>, <<"C2", "C2">>, <<"CH", "DI", "NE">>, <<"BA", "CH", "DN">>,
               <<"R2", "DI", "CH">>, <<"R2", "BB", "NE">>, <<"C2", "R2", "DI">>, <<"C2", "R2", "CH">>,
               <<"C2", "C2", "R2">>, <<"C2", "C2", "C2">>}
         \cup {<<a>> : a \in Kinds}
    ELSE {<<"CH", "DI">>, <<"NE", "CH">>, <<"BA", "DN">>, <<"R2", "DI">>, <<"R2", "CH">>, <<"R2", "BB">>,
          <<"C2", "R2">>, <<"C2", "C2">>, <<"CH", "DI", "NE">>, <<"R2", "DI", "CH">>,
          <<"C2", "R2", "DI">>, <<"C2", "C2", "R2">>, <<"C2", "C2", "C2">>}
         \cup {<<a>> : a \in Kinds}

\* the extents of the axes differ, so that exchanged axes do not go unnoticed
AxOf(c) == [a \in 1..Len(c) |-> [k |-> c[a], n |-> MinSize(c[a]) + 1 + 2 * a]]
Swaps(s) == IF Len(s) < 2 THEN {} ELSE {Reverse(s)}

ChooseSpace ==
    \E c \in Combos : \E op \in Ops :
    \E d \in (IF op = "Gradient" THEN {0, 1} ELSE {0}) :
    LET ax == AxOf(c)
        s == ShapeOf(RepIn(op), ax)
        t == ShapeOf(RepOut(op), ax)
        base == [lvl |-> "space", ax |-> ax, op |-> op, d |-> d, axis |-> 0]
        Mk(form, i, o, lay) == base @@ [form |-> form, in |-> i, out |-> o, lay |-> lay]
    IN \/ \E form \in {"alloc", "par"} : \E i \in Changes(s) \cup Swaps(s) :
            call = Mk(form, i, t, "C")
       \/ op # "Gradient" /\ \E form \in {"inplace", "inplace_par"} :
            \/ \E i \in Changes(s) \cup Swaps(s) : call = Mk(form, i, t, "C")
            \/ \E o \in Changes(t) \cup Swaps(t) : call = Mk(form, s, o, "C")
            \/ \E a \in 1..Len(ax) : \E x \in {-1, 1} :
                 call = Mk(form, [s EXCEPT ![a] = @ + x], [t EXCEPT ![a] = @ + x], "C")
       \/ \E form \in {"alloc", "par"} : call = Mk(form, s, t, "Fin")

Init == /\ \/ "slice" \in Levels /\ ChooseSlice
           \/ "array" \in Levels /\ ChooseArray
           \/ "space" \in Levels /\ ChooseSpace
        /\ outcome = "none"

Call == /\ outcome = "none"
        /\ \/ Match(call) /\ outcome' = "result"
           \/ (~Match(call) \/ ~Standard(call)) /\ outcome' = "panic"
        /\ UNCHANGED call
        /\ (outcome' = "result" \/ ~Match(call)) =>
              CSVWrite("%1$s", <<ToJson([c |-> call, v |-> Verdict(call)])>>, IOEnv.OUT)
Spec == Init /\ [][Call]_vars

\* no result without a match, no panic on a match in standard layout
Sound == /\ outcome = "result" => Match(call)
         /\ outcome = "panic" => Verdict(call) # "accept"
\* a call is decided, and exact lengths are the only ones accepted
Decided == Verdict(call) \in {"accept", "reject", "either"}
SliceExact == call.lvl = "slice" /\ Match(call) =>
                 /\ call.in[1] = LenOf(RepIn(call.op), call.k, call.n)
                 /\ call.out[1] = LenOf(RepOut(call.op), call.k, call.n)
=============================================================================
