----------------------------- MODULE PhraseProof ----------------------------
(***************************************************************************)
(* C13, C14 for every entropy: a phrase of n words is a number below       *)
(* E * C, its digits in base 2048 (RadixProof: they determine each other); *)
(* E is 2^ENT and C is 2^CS.  The check number Ck(e) may be any function   *)
(* of the entropy.  Proved (tlapm): a phrase is accepted exactly when it   *)
(* is the phrase of an entropy, which is then the only one; another last   *)
(* part of an accepted phrase is refused.                                  *)
(***************************************************************************)
EXTENDS Integers, TLAPS

CONSTANTS E, C, Ck(_)
ASSUME Sizes == E \in Nat /\ C \in Nat /\ E > 0 /\ C > 0
ASSUME Checks == \A e \in 0..(E - 1) : Ck(e) \in 0..(C - 1)

Entropies == 0..(E - 1)
Phrase(e) == e * C + Ck(e)
Numbers == 0..(E * C - 1)
Upper(v) == v \div C
Lower(v) == v % C
Accepted(v) == Lower(v) = Ck(Upper(v))

LEMMA Whole == ASSUME NEW v \in Nat PROVE v = (v \div C) * C + (v % C) /\ v \div C \in Nat /\ v % C \in 0..(C - 1)
BY Sizes, Z3

LEMMA Cut == ASSUME NEW a \in Nat, NEW r \in 0..(C - 1) PROVE (a * C + r) \div C = a /\ (a * C + r) % C = r
<1> DEFINE v == a * C + r  q == v \div C  m == v % C
<1>1. r \in Nat /\ r < C /\ v \in Nat BY Sizes, Z3
<1> HIDE DEF v
<1>2. q \in Nat /\ m \in 0..(C - 1) /\ v = q * C + m BY <1>1, Whole
<1> HIDE DEF q, m
<1>3. v = a * C + r BY DEF v
<1>4. ~(q > a)
  <2>1. SUFFICES ASSUME q > a PROVE FALSE OBVIOUS
  <2>2. q - a - 1 \in Nat /\ q = a + 1 + (q - a - 1) BY <2>1, <1>2
  <2>3. PICK d \in Nat : q = a + 1 + d BY <2>2
  <2>4. q * C = a * C + C + d * C /\ d * C \in Nat /\ a * C \in Nat BY <2>3, Sizes, Z3
  <2> QED BY <2>4, <1>1, <1>2, <1>3, Sizes
<1>5. ~(q < a)
  <2>1. SUFFICES ASSUME q < a PROVE FALSE OBVIOUS
  <2>2. a - q - 1 \in Nat /\ a = q + 1 + (a - q - 1) BY <2>1, <1>2
  <2>3. PICK d \in Nat : a = q + 1 + d BY <2>2
  <2>4. a * C = q * C + C + d * C /\ d * C \in Nat /\ q * C \in Nat BY <2>3, <1>2, Sizes, Z3
  <2> QED BY <2>4, <1>1, <1>2, <1>3, Sizes
<1>6. q = a BY <1>4, <1>5, <1>2
<1>7. a * C \in Nat BY Sizes, Z3
<1>8. m = r BY <1>6, <1>2, <1>3, <1>1, <1>7
<1> QED BY <1>6, <1>8 DEF v, q, m

LEMMA UpperIn == ASSUME NEW v \in Numbers PROVE v \in Nat /\ Upper(v) \in Entropies
<1>1. v \in Nat /\ v < E * C BY Sizes DEF Numbers
<1>2. v \div C \in Nat /\ v = (v \div C) * C + (v % C) /\ v % C \in 0..(C - 1) BY <1>1, Whole
<1> DEFINE u == v \div C
<1>3. u \in Nat BY <1>2
<1>4. u * C <= v BY <1>2, <1>3, Sizes, Z3
<1> HIDE DEF u
<1>5. u * C < E * C BY <1>1, <1>3, <1>4, Sizes, Z3
<1>6. u < E
  <2>1. SUFFICES ASSUME u >= E PROVE FALSE BY <1>3, Sizes
  <2>2. \E d \in Nat : u = E + d
    <3>1. u - E \in Nat /\ u = E + (u - E) BY <2>1, <1>3, Sizes
    <3> QED BY <3>1
  <2>3. PICK d \in Nat : u = E + d BY <2>2
  <2>4. u * C = E * C + d * C /\ d * C \in Nat /\ E * C \in Nat BY <2>3, Sizes, Z3
  <2> QED BY <2>4, <1>5
<1> QED BY <1>1, <1>3, <1>6, Sizes DEF Upper, Entropies, u

LEMMA PhraseIn == ASSUME NEW e \in Entropies PROVE Phrase(e) \in Numbers
<1>1. e \in Nat /\ e <= E - 1 /\ Ck(e) \in 0..(C - 1) BY Checks, Sizes DEF Entropies
<1> DEFINE q == Ck(e)
<1>2. q \in Nat /\ q < C BY <1>1, Sizes
<1> HIDE DEF q
<1>3. \E d \in Nat : E = e + 1 + d
  <2>1. E - e - 1 \in Nat /\ E = e + 1 + (E - e - 1) BY <1>1, Sizes
  <2> QED BY <2>1
<1>4. PICK d \in Nat : E = e + 1 + d BY <1>3
<1>5. E * C = e * C + C + d * C /\ d * C \in Nat /\ e * C \in Nat BY <1>4, <1>1, Sizes, Z3
<1> QED BY <1>5, <1>2, Sizes DEF Phrase, Numbers, q

THEOREM Made == \A e \in Entropies : Accepted(Phrase(e)) /\ Upper(Phrase(e)) = e
<1>1. TAKE e \in Entropies
<1>2. e \in Nat /\ Ck(e) \in 0..(C - 1) BY Checks DEF Entropies
<1> QED BY <1>2, Cut DEF Accepted, Phrase, Upper, Lower

THEOREM Exactly == \A v \in Numbers : Accepted(v) <=> \E e \in Entropies : v = Phrase(e)
<1>1. TAKE v \in Numbers
<1>2. v \in Nat /\ Upper(v) \in Entropies BY UpperIn
<1>3. ASSUME Accepted(v) PROVE v = Phrase(Upper(v)) BY <1>2, <1>3, Whole DEF Accepted, Phrase, Upper, Lower
<1>4. ASSUME NEW e \in Entropies, v = Phrase(e) PROVE Accepted(v) BY <1>4, Made
<1> QED BY <1>2, <1>3, <1>4

THEOREM One == \A e, f \in Entropies : Phrase(e) = Phrase(f) => e = f
BY Made

THEOREM OtherEnd == \A v, w \in Numbers : Accepted(v) /\ Accepted(w) /\ Upper(v) = Upper(w) => v = w
<1>1. TAKE v, w \in Numbers
<1>2. v \in Nat /\ w \in Nat BY UpperIn
<1> QED BY <1>2, Whole DEF Accepted, Upper, Lower
=============================================================================
