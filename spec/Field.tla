------------------------------- MODULE Field -------------------------------
(***************************************************************************)
(* A field on a space of one to four axes, in one of the representations   *)
(* a user of funspace moves it through:                                    *)
(*                                                                         *)
(*     spec --ToOrtho--> orth        orth --FromOrtho--> spec              *)
(*     spec --Backward-> phys        phys --Forward----> spec              *)
(*     spec --Gradient-> grad        orth --PInv-------> orth (truncated)  *)
(*                                                                         *)
(* The state holds the ext coordinates x (module Bases) of the function,   *)
(* so that every operation is exact integer arithmetic; the physical       *)
(* representation is the function whose orthogonal coefficients are        *)
(* Ext(x), evaluated on the grid (the replay evaluates that sum, there is  *)
(* nothing else left to it).                                               *)
(*                                                                         *)
(* Configurations come from a JSON file (IOEnv.CFGS):                      *)
(*   [id, ax |-> <<[k, n], ...>>, ds |-> <<d-vectors>>, data |-> mode]     *)
(* Every transition is appended to IOEnv.OUT for replay into the code.     *)
(***************************************************************************)
EXTENDS Bases, Json, IOUtils, CSV

Cfgs == TLCEval(JsonDeserialize(IOEnv.CFGS))
Seed == atoi(IOEnv.SEED)

VARIABLES ci,    \* index of the configuration
          rep,   \* representation
          x,     \* ext coordinates (orthogonal coefficients when rep = "grad")
          last   \* name of the last action (history, for the emitted trace)
vars == <<ci, rep, x, last>>

Cf == Cfgs[ci]
Ax == Cf.ax
Up == UpOrder(Ax)
Down == DownOrder(Ax)
All(t) == Len(t)

(***************************************************************************)
(* Data                                                                    *)
(***************************************************************************)
MM == 30011
Rnd(s, i) ==                                   \* in -3..3
    LET y == (s + i * 1237) % MM
        z == (y * y) % MM
        w == (z * y + 17 * y + 5) % MM
    IN (w % 7) - 3
Key(s) == (Seed * 7919 + Cf.id * 977 + s * 131 + 12345) % MM

\* modes: "rnd"; "real" no imaginary part; "sparse" mostly zero lanes;
\* "unit" one single entry; "ones"; "zero"; "decay" and "grow": entries of very different size,
\* large ones first or last
Big == 67108864                                                       \* 2^26
Entry(i, N, part) ==
    LET r == Rnd(Key(part), i) IN
    CASE Cf.data = "rnd"    -> r
      [] Cf.data = "real"   -> IF part = 1 THEN r ELSE 0
      [] Cf.data = "sparse" -> IF Rnd(Key(part + 2), i) = 1 THEN r ELSE 0
      [] Cf.data = "unit"   -> IF i = (Cf.id * 5 + Seed) % N /\ part = 1 THEN 1 ELSE 0
      [] Cf.data = "decay"  -> IF 4 * i <= N + 3 THEN Mul(M(r), M(Big)) ELSE r
      [] Cf.data = "grow"   -> IF 4 * i > 3 * N THEN Mul(M(r), M(Big)) ELSE r
      [] Cf.data = "ones"   -> IF part = 1 THEN 1 ELSE 0
      [] OTHER              -> 0
Even == IF R2Axis(Ax) > 0 THEN 2 ELSE 1
FreshX ==
    LET N == Prod(ShapeOrth(Ax))
    IN TLCEval([i \in 1..N |-> <<M(Even * Entry(i, N, 1)), M(Even * Entry(i, N, 2))>>])

(***************************************************************************)
(* Observations: what the user sees in each representation                 *)
(***************************************************************************)
OrthOf(t) == ExtT(Ax, t, Up)
SpecOf(t) == SpecT(Ax, t, ShapeOrth(Ax), 1)
View(r, t) == CASE r = "spec" -> SpecOf(t)
                [] r = "grad" -> t
                [] OTHER      -> OrthOf(t)      \* "orth"; "phys" is this sum on the grid

NoD == [a \in 1..Len(Ax) |-> 0]
Emit(op, pre, prex, post, postx, d) ==
    CSVWrite("%1$s", <<ToJson([cfg |-> Cf.id, op |-> op, d |-> d,
                               prep |-> pre, pre |-> View(pre, prex),
                               postp |-> post, post |-> View(post, postx)])>>, IOEnv.OUT)

(***************************************************************************)
(* Actions                                                                 *)
(***************************************************************************)
Init == /\ ci \in 1..Len(Cfgs)
        /\ rep = "new" /\ x = <<>> /\ last = "Init"

Has(op) == \E i \in 1..Len(Cf.ops) : Cf.ops[i] = op

New == /\ rep = "new"
       /\ rep' = "orth" /\ x' = FreshX /\ last' = "New" /\ UNCHANGED ci

NewPhys == /\ rep = "new" /\ Has("Forward")
           /\ rep' = "phys" /\ x' = RealT(Ax, FreshX) /\ last' = "NewPhys" /\ UNCHANGED ci

FromOrtho == /\ rep = "orth" /\ Has("FromOrtho")
             /\ rep' = "spec" /\ x' = ProjT(Ax, x, Down) /\ last' = "FromOrtho" /\ UNCHANGED ci
             /\ Emit("FromOrtho", "orth", x, "spec", x', NoD)

\* composite coefficients without going through FromOrtho (sizes below MinSize)
NewSpec == /\ rep = "new"
           /\ rep' = "spec" /\ x' = ProjT(Ax, FreshX, Up) /\ last' = "NewSpec" /\ UNCHANGED ci

ToOrtho == /\ rep = "spec" /\ Has("ToOrtho")
           /\ rep' = "orth" /\ x' = x /\ last' = "ToOrtho" /\ UNCHANGED ci
           /\ Emit("ToOrtho", "spec", x, "orth", x', NoD)

Backward == /\ rep = "spec" /\ Has("Backward")
            /\ rep' = "phys" /\ x' = RealT(Ax, x) /\ last' = "Backward" /\ UNCHANGED ci
            /\ Emit("Backward", "spec", x, "phys", x', NoD)

Forward == /\ rep = "phys" /\ Has("Forward")
           /\ rep' = "spec" /\ x' = ProjT(Ax, x, Down) /\ last' = "Forward" /\ UNCHANGED ci
           /\ Emit("Forward", "phys", x, "spec", x', NoD)

Gradient == /\ rep = "spec" /\ Has("Gradient")
            /\ \E i \in 1..Len(Cf.ds) :
                 /\ x' = GradT(Ax, OrthOf(x), Cf.ds[i], Up)
                 /\ Emit("Gradient", "spec", x, "grad", x', Cf.ds[i])
            /\ rep' = "grad" /\ last' = "Gradient" /\ UNCHANGED ci

\* differentiation matrices act on orthogonal coefficients
Diffmat == /\ rep = "orth" /\ Has("Diffmat") /\ Len(Ax) = 1
           /\ \E i \in 1..Len(Cf.ds) :
                 /\ x' = GradT(Ax, OrthOf(x), Cf.ds[i], Up)
                 /\ Emit("Diffmat", "orth", x, "grad", x', Cf.ds[i])
           /\ rep' = "grad" /\ last' = "Diffmat" /\ UNCHANGED ci

\* pseudo-inverse times operator: everything outside the operator's kernel
PInv == /\ rep = "orth" /\ Has("PInv") /\ Len(Ax) = 1
        /\ \E i \in 1..Len(Cf.ds) :
             /\ x' = PInvLane(Ax[1].k, OrthOf(x), Cf.ds[i][1])
             /\ Emit("PInv", "orth", x, "grad", x', Cf.ds[i])
        /\ rep' = "grad" /\ last' = "PInv" /\ UNCHANGED ci

Next == New \/ NewPhys \/ NewSpec \/ FromOrtho \/ ToOrtho \/ Backward \/ Forward
          \/ Gradient \/ Diffmat \/ PInv
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties of the model                                                 *)
(***************************************************************************)
IsZero(t) == \A i \in 1..Len(t) : t[i] = Zero

Live == rep \in {"spec", "orth", "phys"}

\* C03: a composite field satisfies its boundary conditions, whatever its coefficients
BCHold ==
    rep = "spec" =>
      LET u == OrthOf(x) IN
      \A a \in 1..Len(Ax) : \A b \in 1..Len(BC(Ax[a].k)) :
        LET f == BC(Ax[a].k)[b]
            Op(l) == <<Apply(f, l)>>
        IN IsZero(LaneMap(u, ShapeOrth(Ax), a, 1, Op))

\* C04: dropping w is the least-squares projection (residual orthogonal to the stencil's range)
Projects ==
    rep = "orth" =>
      \A a \in 1..Len(Ax) : Ax[a].k \in CompKinds =>
        LET k == Ax[a].k
            u == OrthOf(x)
            v == OrthOf(ProjT(Ax, x, <<a>>))
            Op(l) == StencilT(k, l)
            r == TLCEval([i \in 1..Len(u) |-> GSub(u[i], v[i])])
        IN IsZero(LaneMap(r, ShapeOrth(Ax), a, LenSpec(k, Ax[a].n), Op))

\* C07: the order of the axes does not matter
AxisOrder ==
    Live => /\ ExtT(Ax, x, Up) = ExtT(Ax, x, Down)
            /\ ProjT(Ax, x, Up) = ProjT(Ax, x, Down)
            /\ rep = "spec" =>
                 \A i \in 1..Len(Cf.ds) :
                    GradT(Ax, OrthOf(x), Cf.ds[i], Up) = GradT(Ax, OrthOf(x), Cf.ds[i], Down)

\* C05: endpoint values of the derivatives, and the three-term relation
DerivLaw ==
    (Live /\ Len(Ax) = 1 /\ Ax[1].k \in ChebKinds) =>
      LET u == OrthOf(x)
          g == TLCEval(ChebD(u))
          h == TLCEval(ChebD(g))
          n == Len(u)
          c(p) == IF p = 0 THEN 2 ELSE 1
      IN /\ Apply("d+", u) = Apply("v+", g) /\ Apply("d-", u) = Apply("v-", g)
         /\ Apply("s+", u) = Apply("v+", h) /\ Apply("s-", u) = Apply("v-", h)
         /\ \A q \in 1..(n - 1) :
              GScale(M(2 * q), u[q + 1]) =
                GSub(GScale(c(q - 1), g[q]), IF q + 2 <= n THEN g[q + 2] ELSE Zero)

\* C06: the closed forms of the matrices are the powers of the recurrence,
\*      and removing the kernel does not change the derivative
ClosedForm ==
    (rep = "orth" /\ Len(Ax) = 1 /\ Ax[1].k \in ChebKinds) =>
      LET u == OrthOf(x)  n == Len(u) IN
      \A d \in 1..4 :
        LET g == TLCEval(DLane(Ax[1].k, n, u, d)) IN
        /\ g = TLCEval(DLane(Ax[1].k, n, PInvLane(Ax[1].k, u, d), d))
        /\ \A p \in 0..(n - 1) :
            \* common denominator 24 * row
            LET row == IF p = 0 THEN 2 ELSE 1
                den(q) == DmatClosed(d, p, q)
                sum == FoldLeft(LAMBDA acc, q :
                         LET nd == den(q - 1)
                         IN GAdd(acc, GScale(Mul(nd[1], M((24 * row) \div nd[2])), u[q])),
                         Zero, [i \in 1..n |-> i])
            IN sum = GScale(M(24 * row), g[p + 1])

\* C01: what a backward transform to a real field keeps is Hermitian (RealT is a projection)
RealField == (rep = "phys") => RealT(Ax, [i \in 1..Len(x) |-> GScale(2, x[i])])
                                 = [i \in 1..Len(x) |-> GScale(2, x[i])]

\* round trips
TypeOK == /\ rep \in {"new", "spec", "orth", "phys", "grad"}
          /\ rep # "new" => Len(x) = Prod(ShapeOrth(Ax))

\* ToOrtho then FromOrtho, and Backward then Forward, come back
Identity == rep = "spec" => /\ ProjT(Ax, x, Up) = x
                            /\ ProjT(Ax, RealT(Ax, x), Up) = RealT(Ax, x)
=============================================================================
