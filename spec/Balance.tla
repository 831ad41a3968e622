------------------------------- MODULE Balance -------------------------------
(***************************************************************************)
(* The partition in closed form, for every extent and every number of      *)
(* processes (C12).  Proved with tlapm; Decomp.tla and the traces of the   *)
(* code (PartTrace.tla) are bounded, this is not.                          *)
(*                                                                         *)
(* q is the smaller block size and m the number of processes that have one *)
(* point more: n = p * q + m, and the first p - m processes take q points. *)
(***************************************************************************)
EXTENDS Integers, TLAPS
CONSTANTS n, p, q, m
ASSUME Given == /\ n \in Nat /\ p \in Nat /\ q \in Nat /\ m \in Nat
                /\ p >= 1 /\ n >= p /\ n = p * q + m /\ m < p

Max0(a) == IF a > 0 THEN a ELSE 0
Size(r) == IF r < p - m THEN q ELSE q + 1
From(r) == r * q + Max0(r - (p - m))

LEMMA Least == q >= 1
  <1>1. SUFFICES ASSUME q = 0 PROVE FALSE  BY Given
  <1>2. p * q = 0  BY <1>1, Given
  <1> QED BY <1>2, Given

LEMMA Closed == \A x \in Int : From(x) = x * q + Max0(x - (p - m))
  BY DEF From

THEOREM Begins == From(0) = 0
  <1>1. 0 * q = 0  BY Given
  <1> QED BY <1>1, Given DEF From, Max0

THEOREM Consecutive == ASSUME NEW r \in 0..(p - 1) PROVE From(r + 1) = From(r) + Size(r)
  <1> DEFINE d == r - (p - m)
  <1>1. (r + 1) * q = r * q + q  BY Given
  <1>2. r * q \in Nat /\ d \in Int /\ r + 1 - (p - m) = d + 1  BY Given
  <1>3. From(r) = r * q + Max0(d) /\ From(r + 1) = r * q + q + Max0(d + 1)
    <2>1. From(r) = r * q + Max0(d)  BY DEF From
    <2>2. From(r + 1) = (r + 1) * q + Max0(r + 1 - (p - m))
      <3>1. r + 1 \in Int  OBVIOUS
      <3> QED BY <3>1, Closed, Given
    <2>3. Max0(r + 1 - (p - m)) = Max0(d + 1)  BY <1>2
    <2> QED BY <2>1, <2>2, <2>3, <1>1
  <1>4. CASE d < 0
    <2>1. Max0(d) = 0 /\ Max0(d + 1) = 0  BY <1>2, <1>4 DEF Max0
    <2>2. Size(r) = q  BY <1>2, <1>4, Given DEF Size
    <2> HIDE DEF d
    <2> QED BY <1>2, <1>3, <2>1, <2>2, Given
  <1>5. CASE d >= 0
    <2>1. Max0(d) = d /\ Max0(d + 1) = d + 1  BY <1>2, <1>5 DEF Max0
    <2>2. Size(r) = q + 1  BY <1>2, <1>5, Given DEF Size
    <2> HIDE DEF d
    <2> QED BY <1>2, <1>3, <2>1, <2>2, Given
  <1> QED BY <1>2, <1>4, <1>5

THEOREM Ends == From(p) = n
  <1>1. Max0(p - (p - m)) = m  BY Given DEF Max0
  <1> QED BY <1>1, Given DEF From

THEOREM Balanced == ASSUME NEW r \in 0..(p - 1)
                    PROVE Size(r) >= 1 /\ Size(r) \in {q, q + 1}
  BY Least, Given DEF Size

\* blocks do not overlap: later ones start after earlier ones end
THEOREM Ordered == ASSUME NEW r \in 0..(p - 1), NEW s \in 0..p, r < s
                   PROVE From(r) + Size(r) <= From(s)
  <1>0. r \in Nat /\ s \in Nat  BY Given
  <1>1. PICK k \in Nat : s = r + 1 + k
    <2>1. s - r - 1 \in Nat /\ s = r + 1 + (s - r - 1)  BY <1>0
    <2> QED BY <2>1
  <1>2. s * q = (r + 1) * q + k * q
    <2>1. s * q = (r + 1 + k) * q  BY <1>1
    <2>2. (r + 1 + k) * q = (r + 1) * q + k * q  BY <1>0, <1>1, Given
    <2> QED BY <2>1, <2>2
  <1>3. k * q >= 0 /\ k * q \in Nat /\ (r + 1) * q \in Nat  BY <1>1, Given, <1>0
  <1>4. Max0(r + 1 - (p - m)) <= Max0(s - (p - m)) /\ Max0(r + 1 - (p - m)) \in Int /\ Max0(s - (p - m)) \in Int
    BY <1>0, <1>1, Given DEF Max0
  <1>5. From(r + 1) <= From(s)  BY <1>2, <1>3, <1>4, <1>0, Given DEF From
  <1> QED BY <1>5, Consecutive
=============================================================================
