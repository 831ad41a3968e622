------------------------------- MODULE Bases -------------------------------
(***************************************************************************)
(* Exact integer algebra of the eight one-dimensional bases of funspace.   *)
(*                                                                         *)
(* Kinds:  CH Chebyshev            DI Dirichlet        NE Neumann          *)
(*         DN Dirichlet-Neumann    BA biharmonic A     BB biharmonic B     *)
(*         R2 Fourier real-to-complex   C2 Fourier complex-to-complex      *)
(*         ID no base on this axis (used for base-level calls on N-D data) *)
(*                                                                         *)
(* All vectors hold Gaussian integers <<re, im>>, reduced modulo the       *)
(* constant P (P = 0: exact).  TLC's integers have 32 bits, so the checks  *)
(* run the same specification under several primes P < 46337 and recombine *)
(* the emitted values by the Chinese remainder theorem.                    *)
(*                                                                         *)
(* Composite bases.  phi_j = sum_off Num(j, off)/Den(j) T_{j+off}.         *)
(* A composite coefficient v_j is written v_j = Den(j) * c_j with integer  *)
(* c_j, so orthogonal coefficients are integers.  The orthogonal           *)
(* complement of the stencil's range is spanned by the boundary            *)
(* functionals B (as coefficient vectors), hence every orthogonal vector   *)
(* is  u = S v + B^T w,  and the least-squares projection onto the         *)
(* composite space is "drop w".  Ext coordinates x = (c, w).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANT P

M(a)      == IF P = 0 THEN a ELSE a % P
Mul(a, b) == M(a * b)

\* Gaussian integers
Zero      == <<0, 0>>
GAdd(g, h) == <<M(g[1] + h[1]), M(g[2] + h[2])>>
GSub(g, h) == <<M(g[1] - h[1]), M(g[2] - h[2])>>
GScale(k, g) == <<Mul(k, g[1]), Mul(k, g[2])>>      \* k already reduced
GConj(g)  == <<g[1], M(-g[2])>>
GTimesI(g) == <<M(-g[2]), g[1]>>

ChebKinds == {"CH", "DI", "NE", "DN", "BA", "BB"}
CompKinds == {"DI", "NE", "DN", "BA", "BB"}
FourKinds == {"R2", "C2"}
Kinds     == ChebKinds \cup FourKinds

(***************************************************************************)
(* Sizes                                                                   *)
(***************************************************************************)
NBC(k) == IF k \in {"DI", "NE", "DN"} THEN 2 ELSE IF k \in {"BA", "BB"} THEN 4 ELSE 0
LenPhys(k, n) == n
LenOrth(k, n) == IF k = "R2" THEN n \div 2 + 1 ELSE n
LenSpec(k, n) == LenOrth(k, n) - NBC(k)
TransformKind(k) == IF k \in ChebKinds THEN "R2r" ELSE IF k = "R2" THEN "R2c" ELSE "C2c"

\* smallest size on which the conversions (solvers) of the base are defined
MinSize(k) == CASE k = "CH" -> 2 [] k \in {"DI", "NE"} -> 5 [] k = "DN" -> 6
                [] k \in {"BA", "BB"} -> 10 [] OTHER -> 1

(***************************************************************************)
(* Stencils: column j (0-based) is Num(k, j, off) / Den(k, j)              *)
(***************************************************************************)
Den(k, j) ==
    CASE k = "NE" -> M((j + 2) * (j + 2))
      [] k = "DN" -> M((j + 1) * (j + 1) + (j + 2) * (j + 2))
      [] k = "BA" -> M(j + 3)
      [] k = "BB" -> M((j + 3) * (19 + 2 * j * (6 + j)))
      [] OTHER    -> M(1)

Offs(k) == CASE k \in {"DI", "NE"} -> <<0, 2>>
             [] k = "DN" -> <<0, 1, 2>>
             [] k \in {"BA", "BB"} -> <<0, 2, 4>>
             [] OTHER -> <<0>>

Num(k, j, off) ==
    IF off = 0 THEN Den(k, j) ELSE
    CASE k = "DI" -> M(-1)
      [] k = "NE" -> M(-(j * j))
      [] k = "DN" -> IF off = 1 THEN M((j + 2) * (j + 2) - j * j)
                                ELSE M(-(j * j + (j + 1) * (j + 1)))
      [] k = "BA" -> IF off = 2 THEN M(-2 * (j + 2)) ELSE M(j + 1)
      [] k = "BB" -> IF off = 2 THEN M(-2 * (j + 2) * (15 + 2 * j * (j + 4)))
                                ELSE M((j + 1) * (3 + 2 * j * (j + 2)))
      [] OTHER -> 0

(***************************************************************************)
(* Boundary functionals: value / first / second derivative at -1 or +1 of  *)
(* T_k, as exact integers.                                                 *)
(***************************************************************************)
Sgn(q) == IF q % 2 = 0 THEN 1 ELSE -1
D2End(q) == LET s == q * q IN            \* q^2 (q^2 - 1) / 3
            IF q % 3 = 0 THEN Mul(M(s \div 3), M(s - 1)) ELSE Mul(M(s), M((s - 1) \div 3))
Fn(f, q) ==
    CASE f = "v+" -> M(1)
      [] f = "v-" -> M(Sgn(q))
      [] f = "d+" -> M(q * q)
      [] f = "d-" -> M(-Sgn(q) * q * q)
      [] f = "s+" -> D2End(q)
      [] f = "s-" -> Mul(M(Sgn(q)), D2End(q))
BC(k) == CASE k = "DI" -> <<"v-", "v+">>
           [] k = "NE" -> <<"d-", "d+">>
           [] k = "DN" -> <<"v-", "d+">>
           [] k = "BA" -> <<"v-", "v+", "d-", "d+">>
           [] k = "BB" -> <<"v-", "v+", "s-", "s+">>
           [] OTHER -> <<>>

\* functional f applied to a coefficient lane (1-based sequence)
Apply(f, u) == FoldLeft(LAMBDA acc, q : GAdd(acc, GScale(Fn(f, q - 1), u[q])),
                        Zero, [i \in 1..Len(u) |-> i])

(***************************************************************************)
(* Lane operators                                                          *)
(***************************************************************************)
\* ext coordinates x = (c, w)  ->  orthogonal coefficients
ExtLane(k, x) ==
    IF k \notin CompKinds THEN x ELSE
    LET n == Len(x)
        m == n - NBC(k)
        b == BC(k)
        Term(p, acc, off) == LET j == p - off IN
            IF j >= 0 /\ j < m THEN GAdd(acc, GScale(Num(k, j, off), x[j + 1])) ELSE acc
        BTerm(p, acc, i) == GAdd(acc, GScale(Fn(b[i], p), x[m + i]))
    IN [q \in 1..n |->
          FoldLeft(LAMBDA acc, i : BTerm(q - 1, acc, i),
                   FoldLeft(LAMBDA acc, off : Term(q - 1, acc, off), Zero, Offs(k)),
                   [i \in 1..Len(b) |-> i])]

\* ext coordinates -> composite coefficient values (the projection: w is dropped)
SpecLane(k, x) ==
    IF k \notin CompKinds THEN x ELSE
    [q \in 1..(Len(x) - NBC(k)) |-> GScale(Den(k, q - 1), x[q])]

\* projection in ext coordinates
ProjLane(k, x) ==
    IF k \notin CompKinds THEN x ELSE
    [q \in 1..Len(x) |-> IF q <= Len(x) - NBC(k) THEN x[q] ELSE Zero]

\* transposed stencil (numerators) times an orthogonal lane
StencilT(k, u) ==
    [q \in 1..(Len(u) - NBC(k)) |->
        FoldLeft(LAMBDA acc, off : GAdd(acc, GScale(Num(k, q - 1, off), u[q + off])), Zero, Offs(k))]

\* signed wavenumber of index i (0-based)
Kappa(k, n, i) == IF k = "R2" \/ i <= (n - 1) \div 2 THEN i ELSE i - n

\* one Chebyshev differentiation: d_p = (2/c_p) sum_{q > p, q - p odd} q a_q
ChebD(u) ==
    LET n == Len(u)
        \* acc = <<lane of d_{p+1}.., h_{p+1}, h_{p+2}>>; h_p = h_{p+2} + (p+1) a_{p+1}
        Step(acc, i) ==
            LET p == n - 1 - i              \* 0-based, from n-2 down to 0
                h == GAdd(acc[3], GScale(M(p + 1), u[p + 2]))
            IN <<Append(acc[1], IF p = 0 THEN h ELSE GScale(2, h)), h, acc[2]>>
        r == FoldLeft(Step, <<<<Zero>>, Zero, Zero>>, [i \in 1..(n - 1) |-> i])
    IN Reverse(r[1])

FourD(k, n, u) == [q \in 1..Len(u) |-> GTimesI(GScale(M(Kappa(k, n, q - 1)), u[q]))]

RECURSIVE DLane(_, _, _, _)
DLane(k, n, u, d) ==
    IF d = 0 \/ k = "ID" THEN u
    ELSE LET v == TLCEval(IF k \in ChebKinds THEN ChebD(u) ELSE FourD(k, n, u))
         IN DLane(k, n, v, d - 1)

\* what a pseudo-inverse of the d-th derivative recovers: everything outside its kernel
PInvLane(k, u, d) ==
    LET z == IF k \in ChebKinds THEN d ELSE 1
    IN [q \in 1..Len(u) |-> IF q <= z THEN Zero ELSE u[q]]

(***************************************************************************)
(* Closed forms of the Chebyshev differentiation matrices (0-based p, q),  *)
(* as <<numerator, denominator>>; row 0 is halved.                         *)
(***************************************************************************)
DmatClosed(d, p, q) ==
    LET p2 == M(p * p)  q2 == M(q * q)
        p4 == Mul(p2, p2)  q4 == Mul(q2, q2)
        row == IF p = 0 THEN 2 ELSE 1
        odd == (p + q) % 2 = 1
    IN CASE d = 1 /\ q > p /\ odd    -> <<M(2 * q), row>>
         [] d = 2 /\ q > p + 1 /\ ~odd -> <<Mul(M(q), M(q2 - p2)), row>>
         [] d = 3 /\ q > p + 2 /\ odd ->
              <<Mul(M(q), M(M(q4 - 2 * q2) + M(M(p4 - 2 * p2) + 1 - 2 * Mul(q2, p2)))), 4 * row>>
         [] d = 4 /\ q > p + 3 /\ ~odd ->
              <<Mul(M(q), M(  Mul(q2, Mul(M(q2 - 4), M(q2 - 4)))
                            + M(3 * Mul(q2, p4) - Mul(p2, p4))
                            + M(8 * p4 - 16 * p2) - M(3 * Mul(q4, p2)))), 24 * row>>
         [] OTHER -> <<0, 1>>

(***************************************************************************)
(* Tensors: flat row-major sequences with a shape.                         *)
(***************************************************************************)
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Inner(shape, a) == Prod(SubSeq(shape, a + 1, Len(shape)))

\* apply Op (lane -> lane of length newl) along axis a (1-based)
LaneMap(t, shape, a, newl, Op(_)) ==
    LET L == shape[a]
        in == Inner(shape, a)
        nl == Len(t) \div L
        lane(z) == LET o == z \div in  i == z % in
                   IN [q \in 1..L |-> t[(o * L + q - 1) * in + i + 1]]
        res == TLCEval([z \in 1..nl |-> TLCEval(Op(TLCEval(lane(z - 1))))])
    IN TLCEval([r \in 1..(nl * newl) |->
          LET s == r - 1  i == s % in  q == (s \div in) % newl  o == s \div (in * newl)
          IN res[o * in + i + 1][q + 1]])

ShapeOrth(ax) == [a \in 1..Len(ax) |-> LenOrth(ax[a].k, ax[a].n)]
ShapeSpec(ax) == [a \in 1..Len(ax) |-> LenSpec(ax[a].k, ax[a].n)]
ShapePhys(ax) == [a \in 1..Len(ax) |-> LenPhys(ax[a].k, ax[a].n)]

\* apply the per-axis lane operators axis by axis, in the given order of axes;
\* every Op here maps ext/orth shape to ext/orth shape
RECURSIVE ExtT(_, _, _)
ExtT(ax, t, order) ==
    IF order = <<>> THEN t ELSE
    LET a == Head(order)
        Op(l) == ExtLane(ax[a].k, l)
    IN ExtT(ax, IF ax[a].k \in CompKinds
                THEN LaneMap(t, ShapeOrth(ax), a, LenOrth(ax[a].k, ax[a].n), Op) ELSE t,
            Tail(order))
RECURSIVE ProjT(_, _, _)
ProjT(ax, t, order) ==
    IF order = <<>> THEN t ELSE
    LET a == Head(order)
        Op(l) == ProjLane(ax[a].k, l)
    IN ProjT(ax, IF ax[a].k \in CompKinds
                 THEN LaneMap(t, ShapeOrth(ax), a, LenOrth(ax[a].k, ax[a].n), Op) ELSE t,
             Tail(order))
RECURSIVE GradT(_, _, _, _)
GradT(ax, t, d, order) ==
    IF order = <<>> THEN t ELSE
    LET a == Head(order)
        Op(l) == DLane(ax[a].k, ax[a].n, l, d[a])
    IN GradT(ax, IF d[a] > 0
                 THEN LaneMap(t, ShapeOrth(ax), a, LenOrth(ax[a].k, ax[a].n), Op) ELSE t,
             d, Tail(order))
\* shrinks axis after axis from ext to composite coefficient values
RECURSIVE SpecT(_, _, _, _)
SpecT(ax, t, shape, a) ==
    IF a > Len(ax) THEN t ELSE
    LET k == ax[a].k
        nl == LenSpec(k, ax[a].n)
        Op(l) == SpecLane(k, l)
    IN SpecT(ax, IF k \in CompKinds THEN LaneMap(t, shape, a, nl, Op) ELSE t,
             [shape EXCEPT ![a] = nl], a + 1)

UpOrder(ax)   == [i \in 1..Len(ax) |-> i]
DownOrder(ax) == [i \in 1..Len(ax) |-> Len(ax) + 1 - i]

(***************************************************************************)
(* Real fields: with an R2 axis the physical field is real, so at the zero *)
(* (and, for even n, the Nyquist) wavenumber of that axis the coefficients *)
(* are Hermitian in the remaining Fourier axes.  RealT projects onto them; *)
(* data is even, so the halving is exact.                                  *)
(***************************************************************************)
R2Axis(ax) == IF \E a \in 1..Len(ax) : ax[a].k = "R2"
              THEN CHOOSE a \in 1..Len(ax) : ax[a].k = "R2" ELSE 0

Half(a) == IF P = 0 THEN a \div 2 ELSE Mul(a, (P + 1) \div 2)   \* exact for even values

RealT(ax, t) ==
    LET r == R2Axis(ax)  shape == ShapeOrth(ax) IN
    IF r = 0 THEN t ELSE
    LET self(i) == i = 0 \/ (ax[r].n % 2 = 0 /\ i = ax[r].n \div 2)
        dig(s, a) == (s \div Inner(shape, a)) % shape[a]
        \* index of the conjugate partner (C2 axes reversed)
        partner(s) == FoldLeft(LAMBDA acc, a :
              acc + Inner(shape, a) *
                (IF ax[a].k = "C2" THEN (ax[a].n - dig(s, a)) % ax[a].n ELSE dig(s, a)),
              0, UpOrder(ax))
    IN TLCEval([z \in 1..Len(t) |->
          IF self(dig(z - 1, r))
          THEN LET g == GAdd(t[z], GConj(t[partner(z - 1) + 1])) IN <<Half(g[1]), Half(g[2])>>
          ELSE t[z]])
=============================================================================
