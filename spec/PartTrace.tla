------------------------------ MODULE PartTrace ------------------------------
(***************************************************************************)
(* Partitions the code reports (C12), one record per decomposition, read   *)
(* from the file RECS: global shape, process count, and for both           *)
(* orientations what every process says.  A record is passed only if all   *)
(* processes describe one balanced partition of Decomp.tla; otherwise TLC  *)
(* stops in front of it.                                                   *)
(***************************************************************************)
EXTENDS Decomp

VARIABLE ti
recs == JsonDeserialize(IOEnv.RECS)

Axis(o) == IF o = "x" THEN 2 ELSE 1          \* split axis, 1-based
SizesSaid(e, o) == [r \in 0..(e.np - 1) |-> e[o].own[r + 1].sz[Axis(o)]]

OwnOK(e, o, s) ==
    \A r \in 0..(e.np - 1) :
      LET w == e[o].own[r + 1]  a == Axis(o)  c == 3 - a IN
      /\ w.sz[a] = s[r] /\ w.st[a] = Start(s, r) /\ w.en[a] = Start(s, r) + s[r] - 1
      /\ w.sz[c] = e.n[c] /\ w.st[c] = 0 /\ w.en[c] = e.n[c] - 1
      /\ w.np = e.np /\ w.nrank = r /\ w.axc = c - 1
      /\ w.len = s[r] * e.n[c]
\* every process's table lists every process as that process describes itself
TabsOK(e, o) ==
    \A k \in 1..Len(e[o].tabs) :
      LET t == e[o].tabs[k] IN
      /\ Len(t.sz) = e.np /\ Len(t.st) = e.np /\ Len(t.en) = e.np
      /\ \A r \in 1..e.np : LET w == e[o].own[r] IN t.sz[r] = w.sz /\ t.st[r] = w.st /\ t.en[r] = w.en
QueriesOK(e, o) == \A r \in 1..e.np : \A k \in 1..Len(e[o].own[r].shapes) :
                      e[o].own[r].shapes[k] = e[o].own[r].sz
\* cutting a global array whose element (i, j) is i * columns + j + 1
SplitOK(e, o) ==
    \A r \in 1..e.np : LET w == e[o].own[r] IN
      /\ w.cutok
      /\ Len(w.cut) > 0 =>
           w.cut = [k \in 1..(w.sz[1] * w.sz[2]) |->
                      (w.st[1] + (k - 1) \div w.sz[2]) * e.n[2] + w.st[2] + ((k - 1) % w.sz[2]) + 1]
\* implied by OwnOK and the sum; spelt out where it can be enumerated
Covered(n, s, p) == n * p <= 3000 => \A k \in 0..(n - 1) :
    Cardinality({r \in 0..(p - 1) : Start(s, r) <= k /\ k < Start(s, r) + s[r]}) = 1

GlobalOK(e) == \A r \in 1..e.np : /\ e.said[r].np = e.np /\ e.said[r].nrank = r - 1
                                  /\ \A k \in 1..Len(e.said[r].glob) : e.said[r].glob[k] = e.n
Good(e) ==
    /\ GlobalOK(e)
    /\ \A o \in {"x", "y"} :
         LET s == SizesSaid(e, o)  m == e.n[Axis(o)] IN
         /\ SumTo(s, e.np) = m
         /\ \A r \in 0..(e.np - 1) : s[r] \in {m \div e.np, m \div e.np + 1} /\ s[r] >= 1
         /\ OwnOK(e, o, s) /\ TabsOK(e, o) /\ QueriesOK(e, o) /\ SplitOK(e, o)
         /\ Covered(m, s, e.np)

TraceInit == Start0(1) /\ dec = <<>> /\ part = <<>> /\ ti = 1
Pass == /\ ti <= Len(recs)
        /\ Good(recs[ti])
        /\ ti' = ti + 1
        /\ UNCHANGED vars
Finish == ti > Len(recs) /\ UNCHANGED <<vars, ti>>
Short == [ti |-> ti]
TraceSpec == TraceInit /\ [][Pass \/ Finish]_<<vars, ti>>
=============================================================================
