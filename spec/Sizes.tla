------------------------------- MODULE Sizes -------------------------------
(***************************************************************************)
(* Bases and spaces as a user builds them: pick kinds and sizes axis by    *)
(* axis, then ask.  Every reachable (kind, size) and every combination of  *)
(* kinds that forms a space is enumerated; the answers the specification   *)
(* gives are emitted and compared with what the code reports.              *)
(***************************************************************************)
EXTENDS Bases, Json, IOUtils, CSV

CONSTANTS NMax,        \* largest size of a single base
          Sparse,      \* and some far larger ones
          SpaceSizes   \* per-axis size offsets for spaces

VARIABLES mode, ax, n
vars == <<mode, ax, n>>

MinTo(k) == CASE k = "CH" -> 2 [] k \in {"DI", "NE", "DN"} -> 4
              [] k \in {"BA", "BB"} -> 8 [] OTHER -> 1

KindName(k) == CASE k = "CH" -> "Chebyshev" [] k = "DI" -> "ChebDirichlet"
    [] k = "NE" -> "ChebNeumann" [] k = "DN" -> "ChebDirichletNeumann"
    [] k = "BA" -> "ChebBiHarmonicA" [] k = "BB" -> "ChebBiHarmonicB"
    [] k = "R2" -> "FourierR2c" [] k = "C2" -> "FourierC2c"

(***************************************************************************)
(* Grid: point j has coordinate -cos(pi * a/b) (Chebyshev) or 2 pi a/b     *)
(* (Fourier) with the fraction <<a, b>>.                                   *)
(***************************************************************************)
Point(k, m, j) == IF k \in ChebKinds THEN <<j, m - 1>> ELSE <<j, m>>

\* combinations of kinds that the space types accept
T(k) == TransformKind(k)
Legal(s) ==
    LET t == [i \in 1..Len(s) |-> T(s[i])] IN
    CASE Len(s) = 1 -> TRUE
      [] Len(s) = 2 -> t \in {<<"R2r", "R2r">>, <<"R2c", "R2r">>, <<"C2c", "R2c">>, <<"C2c", "C2c">>}
      [] Len(s) = 3 -> t \in {<<"R2r", "R2r", "R2r">>, <<"R2c", "R2r", "R2r">>,
                              <<"C2c", "R2c", "R2r">>, <<"C2c", "C2c", "R2c">>,
                              <<"C2c", "C2c", "C2c">>}
      [] OTHER -> FALSE
KindsOf(a) == [i \in 1..Len(a) |-> a[i].k]

Report(a) ==
    [ax |-> [i \in 1..Len(a) |-> <<a[i].k, a[i].n>>],
     phys |-> ShapePhys(a), spec |-> ShapeSpec(a), orth |-> ShapeOrth(a),
     kind |-> [i \in 1..Len(a) |-> KindName(a[i].k)],
     tkind |-> [i \in 1..Len(a) |-> T(a[i].k)],
     first |-> [i \in 1..Len(a) |-> Point(a[i].k, a[i].n, 0)],
     last |-> [i \in 1..Len(a) |-> Point(a[i].k, a[i].n, a[i].n - 1)],
     npts |-> [i \in 1..Len(a) |-> Cardinality({Point(a[i].k, a[i].n, j) : j \in 0..(a[i].n - 1)})]]

Emit(a) == CSVWrite("%1$s", <<ToJson(Report(a))>>, IOEnv.OUT)

Init == \/ /\ mode = "base" /\ \E k \in Kinds : \E m \in {MinTo(k)} \cup Sparse : ax = <<[k |-> k, n |-> m]>>
           /\ n = 0
        \/ /\ mode = "space" /\ ax = <<>> /\ n = 0

\* ask a base, then look at the next size
AskBase == /\ mode = "base" /\ n = 0
           /\ Emit(ax) /\ n' = 1 /\ UNCHANGED <<mode, ax>>
Grow == /\ mode = "base" /\ n = 1 /\ ax[1].n < NMax
        /\ ax' = <<[ax[1] EXCEPT !.n = @ + 1]>> /\ n' = 0 /\ UNCHANGED mode

\* build a space axis by axis
AddAxis == /\ mode = "space" /\ n = 0 /\ Len(ax) < 3
           /\ \E k \in Kinds, s \in SpaceSizes :
                LET a == Append(ax, [k |-> k, n |-> MinTo(k) + s + Len(ax)])
                IN ax' = a
           /\ UNCHANGED <<mode, n>>
AskSpace == /\ mode = "space" /\ n = 0 /\ Len(ax) > 0 /\ Legal(KindsOf(ax))
            /\ Emit(ax) /\ n' = 1 /\ UNCHANGED <<mode, ax>>

Next == AskBase \/ Grow \/ AddAxis \/ AskSpace
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties of the model                                                 *)
(***************************************************************************)
\* the grid has exactly n points, strictly increasing (the angle lies in 0..pi or 0..2pi)
GridOK == \A i \in 1..Len(ax) :
    LET k == ax[i].k  m == ax[i].n
    IN (m > 1) =>
        /\ \A j \in 0..(m - 2) : Point(k, m, j)[1] < Point(k, m, j + 1)[1]
        /\ Point(k, m, 0)[1] = 0
        /\ k \in ChebKinds => Point(k, m, m - 1)[1] = Point(k, m, m - 1)[2]
        /\ k \in FourKinds => Point(k, m, m - 1)[1] < Point(k, m, m - 1)[2]

SizesOK == \A i \in 1..Len(ax) :
    LET k == ax[i].k  m == ax[i].n
    IN /\ LenSpec(k, m) + NBC(k) = LenOrth(k, m)
       /\ LenSpec(k, m) > 0 /\ LenOrth(k, m) <= LenPhys(k, m)
       /\ k # "R2" => LenOrth(k, m) = m
       /\ k = "R2" => 2 * (LenOrth(k, m) - 1) \in {m, m - 1}
=============================================================================
