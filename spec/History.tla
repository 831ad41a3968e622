------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* What a user may do with shared bases/spaces and a pool of buffers, and  *)
(* why the outcome has to be a function of the inputs only (C09).          *)
(*                                                                         *)
(* Objects are handles on one base or space; they may be cloned, and used  *)
(* by several threads at the same time.  Each keeps working storage, left  *)
(* behind by the last call: `left[o]`.  Buffers hold the value of a term   *)
(* (0: garbage).  A term is fresh data or an operation applied to a term:  *)
(* it does not mention the object, the form of the call, the thread, what  *)
(* the output buffer held before or what the object was used for before.   *)
(* A call occupies the interval between Begin and End; calls of different  *)
(* threads overlap.  The input of a running call may be shared with other  *)
(* readers; its output buffer belongs to it.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

CONSTANTS Objects, Threads, PerRep, NData, NGrad, Depth, Emitting, Ops,
          Queries,   \* what can be asked about a base or space (matrices, grids, sizes)
          NOrd       \* orders / axes 1..NOrd to ask about

Reps == {"spec", "orth", "phys"}
Buffers == {<<r, i>> : r \in Reps, i \in 1..PerRep}
Forms == {"alloc", "inplace", "par", "inplace_par", "slice"}
Idle == [op |-> "-"]

From(op) == CASE op = "FromOrtho" -> "orth" [] op = "Forward" -> "phys" [] OTHER -> "spec"
To(op) == CASE op = "ToOrtho" -> "orth" [] op = "Gradient" -> "orth"
            [] op = "Backward" -> "phys" [] OTHER -> "spec"

VARIABLES terms,   \* defined terms, in order of first use
          buf,     \* buffer -> index of a term, 0: garbage
          live,    \* thread -> running call or Idle
          left,    \* object -> term whose evaluation last used its working storage
          steps    \* history, for the emitted trace
vars == <<terms, buf, live, left, steps>>

Init == /\ terms = <<>> /\ buf = [b \in Buffers |-> 0]
        /\ live = [t \in Threads |-> Idle] /\ left = [o \in Objects |-> 0] /\ steps = <<>>

More == Len(steps) < Depth
Log(s) == steps' = Append(steps, s)

\* index of a term, and the list of terms after mentioning it
Known(t) == {i \in 1..Len(terms) : terms[i] = t}
Idx(t) == IF Known(t) # {} THEN CHOOSE i \in Known(t) : TRUE ELSE Len(terms) + 1
With(t) == IF Known(t) # {} THEN terms ELSE Append(terms, t)

Calls == {t \in Threads : live[t] # Idle}
Written == {live[t].dst : t \in Calls}
Read == {live[t].src : t \in Calls}
Free(b) == b \notin Written /\ b \notin Read

Load(b, k) ==
    /\ More /\ Free(b)
    /\ LET t == [op |-> "data", rep |-> b[1], d |-> k, src |-> 0] IN
       /\ terms' = With(t) /\ buf' = [buf EXCEPT ![b] = Idx(t)]
    /\ Log([a |-> "Load", b |-> b, k |-> k])
    /\ UNCHANGED <<live, left>>

Spoil(b) ==
    /\ More /\ Free(b) /\ buf[b] # 0
    /\ buf' = [buf EXCEPT ![b] = 0]
    /\ Log([a |-> "Spoil", b |-> b])
    /\ UNCHANGED <<terms, live, left>>

Clone(o, o2) ==
    /\ More /\ o # o2
    /\ \A t \in Calls : live[t].o # o2
    /\ left' = [left EXCEPT ![o2] = left[o]]
    /\ Log([a |-> "Clone", o |-> o, o2 |-> o2])
    /\ UNCHANGED <<terms, buf, live>>

\* an object built anew replaces another one
New(o) ==
    /\ More /\ \A t \in Calls : live[t].o # o
    /\ left' = [left EXCEPT ![o] = 0]
    /\ Log([a |-> "New", o |-> o])
    /\ UNCHANGED <<terms, buf, live>>

\* the answer to a query is a term of its own: nothing else in the history is mentioned by it,
\* and the history goes on as if nobody had asked
Ask(t, o, q, d) ==
    /\ More /\ live[t] = Idle
    /\ LET term == [op |-> "ask", rep |-> q, d |-> d, src |-> 0] IN
       /\ terms' = With(term)
       /\ Log([a |-> "Ask", t |-> t, o |-> o, q |-> q, d |-> d, term |-> Idx(term)])
    /\ UNCHANGED <<buf, live, left>>

\* a call with arguments that do not fit is refused, and that is all that happens
Refused(t, o, op, form) ==
    /\ More /\ live[t] = Idle
    /\ Log([a |-> "Refused", t |-> t, o |-> o, op |-> op, form |-> form])
    /\ UNCHANGED <<terms, buf, live, left>>

\* other objects - of another precision, kind or size - are made, asked and used meanwhile: they
\* share nothing with the objects of this history
Other(t, q, d) ==
    /\ More /\ live[t] = Idle
    /\ Log([a |-> "Other", t |-> t, q |-> q, d |-> d])
    /\ UNCHANGED <<terms, buf, live, left>>

Begin(t, o, op, form, s, d, dst) ==
    /\ More /\ live[t] = Idle
    /\ s[1] = From(op) /\ dst[1] = To(op) /\ s # dst
    /\ buf[s] # 0 /\ s \notin Written
    /\ Free(dst)
    /\ live' = [live EXCEPT ![t] = [op |-> op, o |-> o, src |-> s, dst |-> dst, d |-> d]]
    /\ buf' = [buf EXCEPT ![dst] = 0]
    /\ Log([a |-> "Begin", t |-> t, o |-> o, op |-> op, form |-> form, s |-> s, d |-> d,
            dst |-> dst])
    /\ UNCHANGED <<terms, left>>

End(t) ==
    /\ live[t] # Idle
    /\ LET c == live[t]
           term == [op |-> c.op, rep |-> To(c.op), d |-> c.d, src |-> buf[c.src]]
       IN /\ terms' = With(term)
          /\ buf' = [buf EXCEPT ![c.dst] = Idx(term)]
          /\ left' = [left EXCEPT ![c.o] = Idx(term)]
          /\ Log([a |-> "End", t |-> t, term |-> Idx(term)])
    /\ live' = [live EXCEPT ![t] = Idle]

Emit == /\ Len(steps) >= Depth /\ Calls = {} /\ steps[Len(steps)].a # "Stop"
        /\ Log([a |-> "Stop"])
        /\ (Emitting => CSVWrite("%1$s", <<ToJson([terms |-> terms, steps |-> steps,
                                    buf |-> [i \in 1..PerRep |-> <<buf[<<"spec", i>>],
                                               buf[<<"orth", i>>], buf[<<"phys", i>>]>>]])>>,
                                 IOEnv.OUT))
        /\ UNCHANGED <<terms, buf, live, left>>

Ds(op) == IF op = "Gradient" THEN 1..NGrad ELSE {0}
Next ==
    \/ \E b \in Buffers : Spoil(b) \/ \E k \in 1..NData : Load(b, k)
    \/ \E o \in Objects, o2 \in Objects : Clone(o, o2)
    \/ \E o \in Objects : New(o)
    \/ \E t \in Threads, o \in Objects : Refused(t, o, "Forward", "alloc")
    \/ \E t \in Threads, o \in Objects, q \in Queries, d \in 1..NOrd : Ask(t, o, q, d)
    \/ \E t \in Threads, q \in Queries, d \in 1..NOrd : Other(t, q, d)
    \/ \E t \in Threads : End(t)
    \/ \E t \in Threads, o \in Objects, op \in Ops, form \in Forms, i \in 1..PerRep, j \in 1..PerRep :
          \E d \in Ds(op) : Begin(t, o, op, form, <<From(op), i>>, d, <<To(op), j>>)
    \/ Emit
Spec == Init /\ [][Next]_vars

\* for random behaviours: loads only into garbage, few spoilt buffers and clones
NextSim ==
    \/ \E t \in Threads : End(t)
    \/ \E b \in Buffers : buf[b] = 0 /\ \E k \in 1..NData : Load(b, k)
    \/ \E b \in Buffers : Spoil(b)
    \/ \E o \in Objects, o2 \in Objects : Clone(o, o2)
    \/ \E o \in Objects : New(o)
    \/ \E t \in Threads, o \in Objects, op \in Ops : \E form \in {"alloc", "inplace_par"} : Refused(t, o, op, form)
    \/ \E t \in Threads, o \in Objects, q \in Queries, d \in 1..NOrd : Ask(t, o, q, d)
    \/ \E t \in Threads, q \in Queries, d \in 1..NOrd : Other(t, q, d)
    \/ \E t \in Threads, o \in Objects, op \in Ops, form \in Forms, i \in 1..PerRep, j \in 1..PerRep :
          \E d \in Ds(op) : Begin(t, o, op, form, <<From(op), i>>, d, <<To(op), j>>)
    \/ Emit
SpecSim == Init /\ [][NextSim]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
TypeOK == /\ \A b \in Buffers : buf[b] \in 0..Len(terms)
          /\ \A b \in Buffers : buf[b] # 0 => terms[buf[b]].rep = b[1] /\ terms[buf[b]].op # "ask"
          /\ \A i \in 1..Len(terms) : terms[i].src < i
\* equal inputs, equal outputs: a value is denoted by one term only
Canonical == \A i, j \in 1..Len(terms) : terms[i] = terms[j] => i = j
\* running calls never write what another one reads or writes
NoRace == \A t, u \in Calls : t # u => /\ live[t].dst # live[u].dst
                                       /\ live[t].dst # live[u].src
\* a step changes the buffers it names and nothing else; inputs survive
Frame == [][\A b \in Buffers :
              buf'[b] # buf[b] =>
                LET s == steps'[Len(steps')] IN
                \/ s.a \in {"Load", "Spoil"} /\ s.b = b
                \/ s.a = "Begin" /\ s.dst = b
                \/ s.a = "End" /\ live[s.t].dst = b]_vars
\* asking, being refused, and what others do, changes no value, no working storage and no running call
Silent == [][(Len(steps') > Len(steps) /\ steps'[Len(steps')].a \in {"Ask", "Refused", "Other"})
               => UNCHANGED <<buf, left, live>> /\ \A i \in 1..Len(terms) : terms'[i] = terms[i]]_vars
\* what a call returns is the same wherever, whenever and on whichever object it runs
Pure == [][\A t \in Threads :
             (live[t] # Idle /\ live'[t] = Idle) =>
               LET c == live[t] IN
               terms'[buf'[c.dst]] = [op |-> c.op, rep |-> To(c.op), d |-> c.d, src |-> buf[c.src]]]_vars
=============================================================================
