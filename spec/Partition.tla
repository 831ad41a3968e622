------------------------------ MODULE Partition ------------------------------
(***************************************************************************)
(* The shapes and process counts at which partitions are examined (C12).   *)
(***************************************************************************)
EXTENDS Integers, Json, IOUtils, CSV
CONSTANTS Small,      \* all pairs of extents up to this
          Large,      \* one extent up to this, all process counts
          Procs,      \* many processes
          Wide        \* extents far beyond what fits in memory (no array is cut)
VARIABLES c, done
Init == /\ done = FALSE
        /\ \/ \E a, b \in 1..Small : \E p \in 1..Small :
                p <= a /\ p <= b /\ c = [n |-> <<a, b>>, np |-> p, full |-> TRUE]
           \/ \E a \in 1..Large : \E p \in 1..Large : \E sw \in BOOLEAN :
                /\ p <= a
                /\ LET b == p + ((a * 7) % 5) IN
                   c = [n |-> IF sw THEN <<b, a>> ELSE <<a, b>>, np |-> p, full |-> FALSE]
           \/ \E p \in Procs : \E k \in {1, 2, 3, 7} : \E j \in {0, 1, p \div 2, p - 1} : \E sw \in BOOLEAN :
                LET a == p * k + j  b == p + ((a * 7) % 5) IN
                c = [n |-> IF sw THEN <<b, a>> ELSE <<a, b>>, np |-> p, full |-> FALSE]
           \/ \E a \in Wide : \E p \in {1, 2, 3, 7, 8} : \E sw \in BOOLEAN :
                c = [n |-> IF sw THEN <<p, a>> ELSE <<a, p>>, np |-> p, full |-> FALSE]
Emit == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ CSVWrite("%1$s", <<ToJson(c)>>, IOEnv.OUT)
Spec == Init /\ [][Emit]_<<c, done>>
\* within the property's quantifier
Legal == c.np <= c.n[1] /\ c.np <= c.n[2]
=============================================================================
