----------------------------- MODULE Operators -----------------------------
(***************************************************************************)
(* The matrices a base reports, column by column: stencil, differentiation *)
(* matrices (closed forms), Laplacian (= second derivative) and the        *)
(* columns of the pseudo-inverses that their operator determines.          *)
(* Entries are emitted as <<row, numerator, denominator>> (Chebyshev) or   *)
(* <<row, re, im, denominator>> (Fourier), modulo P; pseudo-inverse        *)
(* entries are elements of the field, recombined as rationals.             *)
(***************************************************************************)
EXTENDS Bases, Json, IOUtils, CSV

Cfgs == TLCEval(JsonDeserialize(IOEnv.CFGS))

VARIABLES ci, what, d, j
vars == <<ci, what, d, j>>
Cf == Cfgs[ci]
K == Cf.k
N == Cf.n
L == LenOrth(K, N)

\* division in the field (P prime)
RECURSIVE Pow(_, _)
Pow(a, e) == IF e = 0 THEN M(1)
             ELSE LET h == Pow(a, e \div 2)
                      s == Mul(h, h)
                  IN IF e % 2 = 1 THEN Mul(s, a) ELSE s
Inv(a) == Pow(a, P - 2)

(***************************************************************************)
(* One integration step without the kernel: f with D f = g for g of degree *)
(* < L-1, f_0 := 0.   2 q f_q = c_{q-1} g_{q-1} - g_{q+1}                  *)
(***************************************************************************)
Integ(g) == [q \in 1..L |->
    IF q = 1 THEN Zero
    ELSE GScale(Inv(M(2 * (q - 1))),
                GSub(GScale(IF q = 2 THEN 2 ELSE 1, g[q - 1]),
                     IF q + 1 <= L THEN g[q + 1] ELSE Zero))]
RECURSIVE IntegD(_, _)
IntegD(g, m) == IF m = 0 THEN g ELSE IntegD(TLCEval(Integ(g)), m - 1)

Unit(jj) == [q \in 1..L |-> IF q = jj + 1 THEN <<M(1), 0>> ELSE Zero]

\* column of the pseudo-inverse: d-fold integral of the j-th function, kernel removed
PinvCol(dd, jj) ==
    IF K \in ChebKinds THEN PInvLane(K, IntegD(Unit(jj), dd), dd)
    ELSE [q \in 1..L |-> IF q # jj + 1 \/ jj = 0 THEN Zero
                         ELSE LET kap == Inv(M(Kappa(K, N, jj)))
                                  r == Pow(kap, dd)
                              IN \* 1/(i k)^d = (-i)^d / k^d
                                 CASE dd % 4 = 0 -> <<r, 0>> [] dd % 4 = 1 -> <<0, M(-r)>>
                                   [] dd % 4 = 2 -> <<M(-r), 0>> [] OTHER -> <<0, r>>]

StencilCol(jj) ==
    [i \in 1..Len(Offs(K)) |-> <<jj + Offs(K)[i], Num(K, jj, Offs(K)[i]), 0, Den(K, jj)>>]

DiffCol(dd, jj) ==
    IF K \in ChebKinds
    THEN LET rows == SelectSeq([p \in 1..L |-> p - 1], LAMBDA p : DmatClosed(dd, p, jj)[1] # 0)
         IN [i \in 1..Len(rows) |-> <<rows[i], DmatClosed(dd, rows[i], jj)[1], 0,
                                       M(DmatClosed(dd, rows[i], jj)[2])>>]
    ELSE LET v == DLane(K, N, Unit(jj), dd)
         IN <<<<jj, v[jj + 1][1], v[jj + 1][2], 1>>>>

InvCol(dd, jj) ==
    LET v == TLCEval(PinvCol(dd, jj))
        rows == SelectSeq([p \in 1..L |-> p - 1], LAMBDA p : v[p + 1] # Zero)
    IN [i \in 1..Len(rows) |-> <<rows[i], v[rows[i] + 1][1], v[rows[i] + 1][2], 1>>]

Emit(w, dd, jj, col) ==
    CSVWrite("%1$s", <<ToJson([cfg |-> Cf.id, k |-> K, n |-> N, what |-> w, d |-> dd, j |-> jj,
                               col |-> col])>>, IOEnv.OUT)

Init == ci \in 1..Len(Cfgs) /\ what = "base" /\ d = 0 /\ j = -1

Has(w) == \E i \in 1..Len(Cf.what) : Cf.what[i] = w

Stencil == /\ what = "base" /\ Has("stencil")
           /\ \E i \in 1..Len(Cf.js) :
                /\ Cf.js[i] < LenSpec(K, N)
                /\ j' = Cf.js[i] /\ Emit("stencil", 0, j', StencilCol(j'))
           /\ what' = "stencil" /\ UNCHANGED <<ci, d>>

Diffmat == /\ what = "base" /\ Has("diffmat")
           /\ \E i \in 1..Len(Cf.js), dd \in {Cf.ds[x] : x \in 1..Len(Cf.ds)} :
                /\ Cf.js[i] < L
                /\ j' = Cf.js[i] /\ d' = dd
                /\ Emit("diffmat", dd, j', DiffCol(dd, j'))
           /\ what' = "diffmat" /\ UNCHANGED ci

\* an operator of order d on L coefficients determines the columns 0..L-d-1
Determined(dd, jj) == IF K \in ChebKinds THEN jj < L - dd ELSE jj > 0
Pinv == /\ what = "base" /\ Has("pinv")
        /\ \E i \in 1..Len(Cf.js), dd \in {Cf.ds[x] : x \in 1..Len(Cf.ds)} :
             /\ Cf.js[i] < L /\ Determined(dd, Cf.js[i])
             /\ K \in ChebKinds => N >= 2 * dd
             /\ j' = Cf.js[i] /\ d' = dd
             /\ Emit("pinv", dd, j', InvCol(dd, j'))
        /\ what' = "pinv" /\ UNCHANGED ci

Next == Stencil \/ Diffmat \/ Pinv
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties of the model                                                 *)
(***************************************************************************)
\* the closed form is the recurrence applied to a unit vector
DiffmatIsD ==
    (what = "diffmat" /\ K \in ChebKinds) =>
      LET v == TLCEval(DLane(K, N, Unit(j), d))
      IN \A p \in 0..(L - 1) :
            LET nd == DmatClosed(d, p, j) IN GScale(M(nd[2]), v[p + 1]) = <<nd[1], 0>>
\* operator times pseudo-inverse column is the unit vector again
PinvInverts ==
    what = "pinv" => DLane(K, N, PinvCol(d, j), d) = Unit(j)
\* every stencil column satisfies the boundary conditions
StencilBC ==
    what = "stencil" =>
      LET u == TLCEval([q \in 1..L |->
                 FoldLeft(LAMBDA acc, e : IF e[1] = q - 1 THEN <<e[2], 0>> ELSE acc,
                          Zero, StencilCol(j))])
      IN \A b \in 1..Len(BC(K)) : Apply(BC(K)[b], u) = Zero
=============================================================================
