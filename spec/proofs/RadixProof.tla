----------------------------- MODULE RadixProof -----------------------------
(***************************************************************************)
(* The texts: hexadecimal (b = 16), Base58 (58), bytes (256), the words of *)
(* a phrase (2048) and bits (2) are digits of a number in base b.  Proved  *)
(* (tlapm) for every base and length: the digits of a number give the      *)
(* number back (C01, C02, C10, C12, C13), and different digits are         *)
(* different numbers (C03, C14).                                           *)
(* A row of digits is a function on Nat, the lowest digit first; Rest      *)
(* drops the lowest.                                                       *)
(***************************************************************************)
EXTENDS Integers, NaturalsInduction, TLAPS

CONSTANTS b, Pow, Val(_, _)
ASSUME Base == b \in Nat /\ b >= 2
ASSUME Powers == /\ Pow \in [Nat -> Nat] /\ Pow[0] = 1
                 /\ \A w \in Nat : Pow[w + 1] = b * Pow[w]

Rows == [Nat -> 0..(b - 1)]
Rest(d) == [i \in Nat |-> d[i + 1]]

(* the value of the first w digits, and the row of digits of a number *)
ASSUME Values == \A d \in Rows : /\ Val(0, d) = 0
                                 /\ \A w \in Nat : Val(w + 1, d) = d[0] + b * Val(w, Rest(d))

LEMMA RestRow == ASSUME NEW d \in Rows PROVE Rest(d) \in Rows
BY DEF Rows, Rest

LEMMA ValNat == \A w \in Nat : \A d \in Rows : Val(w, d) \in Nat /\ Val(w, d) < Pow[w]
<1> DEFINE Q(w) == \A d \in Rows : Val(w, d) \in Nat /\ Val(w, d) < Pow[w]
<1>1. Q(0) BY Values, Powers
<1>2. \A w \in Nat : Q(w) => Q(w + 1)
  <2>1. TAKE w \in Nat
  <2>2. HAVE Q(w)
  <2>3. TAKE d \in Rows
  <2>4. d[0] \in 0..(b - 1) BY DEF Rows
  <2>5. Val(w, Rest(d)) \in Nat /\ Val(w, Rest(d)) < Pow[w] BY <2>2, RestRow
  <2>6. Val(w + 1, d) = d[0] + b * Val(w, Rest(d)) /\ Pow[w + 1] = b * Pow[w] BY Values, Powers
  <2>7. Pow[w] \in Nat BY Powers
  <2>8. ASSUME NEW x \in Nat, NEW y \in Nat, NEW e \in 0..(b - 1), x < y PROVE e + b * x \in Nat /\ e + b * x < b * y
    <3>1. x + 1 <= y BY <2>8
    <3>2. y = (x + 1) + (y - x - 1) /\ y - x - 1 \in Nat BY <3>1, <2>8
    <3>3. b * y = b * x + b + b * (y - x - 1) BY <3>2, Base
    <3>4. b * (y - x - 1) >= 0 /\ b * x \in Nat BY <3>2, Base
    <3> QED BY <3>3, <3>4, Base
  <2> QED BY <2>4, <2>5, <2>6, <2>7, <2>8
<1> HIDE DEF Q
<1>3. \A w \in Nat : Q(w) BY <1>1, <1>2, NatInduction, Isa
<1> QED BY <1>3 DEF Q

LEMMA Split == ASSUME NEW x \in Nat, NEW y \in Nat, NEW e \in 0..(b - 1), NEW f \in 0..(b - 1), e + b * x = f + b * y
               PROVE e = f /\ x = y
<1>1. CASE x < y
  <2>1. x + 1 <= y BY <1>1
  <2>2. b * y = b * (x + 1) + b * (y - x - 1) /\ b * (y - x - 1) >= 0 BY <2>1, Base
  <2>3. b * (x + 1) = b * x + b BY Base
  <2> QED BY <2>2, <2>3, Base
<1>2. CASE y < x
  <2>1. y + 1 <= x BY <1>2
  <2>2. b * x = b * (y + 1) + b * (x - y - 1) /\ b * (x - y - 1) >= 0 BY <2>1, Base
  <2>3. b * (y + 1) = b * y + b BY Base
  <2> QED BY <2>2, <2>3, Base
<1> QED BY <1>1, <1>2, Base

(* rows that differ in one of the first w digits have different values *)
THEOREM Different ==
  \A w \in Nat : \A d, e \in Rows : Val(w, d) = Val(w, e) => \A i \in 0..(w - 1) : d[i] = e[i]
<1> DEFINE Q(w) == \A d, e \in Rows : Val(w, d) = Val(w, e) => \A i \in 0..(w - 1) : d[i] = e[i]
<1>1. Q(0) OBVIOUS
<1>2. \A w \in Nat : Q(w) => Q(w + 1)
  <2>1. TAKE w \in Nat
  <2>2. HAVE Q(w)
  <2>3. TAKE d, e \in Rows
  <2>4. HAVE Val(w + 1, d) = Val(w + 1, e)
  <2>5. d[0] \in 0..(b - 1) /\ e[0] \in 0..(b - 1) BY DEF Rows
  <2>6. Val(w, Rest(d)) \in Nat /\ Val(w, Rest(e)) \in Nat BY ValNat, RestRow
  <2>7. d[0] + b * Val(w, Rest(d)) = e[0] + b * Val(w, Rest(e)) BY <2>4, Values
  <2>8. d[0] = e[0] /\ Val(w, Rest(d)) = Val(w, Rest(e)) BY <2>5, <2>6, <2>7, Split
  <2>9. \A i \in 0..(w - 1) : Rest(d)[i] = Rest(e)[i] BY <2>2, <2>8, RestRow
  <2>10. ASSUME NEW i \in 0..((w + 1) - 1) PROVE d[i] = e[i]
    <3>1. CASE i = 0 BY <3>1, <2>8
    <3>2. CASE i # 0
      <4>1. i - 1 \in 0..(w - 1) /\ i - 1 \in Nat /\ (i - 1) + 1 = i BY <3>2
      <4>2. Rest(d)[i - 1] = d[i] /\ Rest(e)[i - 1] = e[i] BY <4>1 DEF Rest
      <4> QED BY <4>1, <4>2, <2>9
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>10
<1> HIDE DEF Q
<1>3. \A w \in Nat : Q(w) BY <1>1, <1>2, NatInduction, Isa
<1> QED BY <1>3 DEF Q

LEMMA Divide == \A n \in Nat : \E q \in Nat : \E r \in 0..(b - 1) : n = b * q + r
<1> DEFINE Q(n) == \E q \in Nat : \E r \in 0..(b - 1) : n = b * q + r
<1>1. Q(0)
  <2>1. 0 \in Nat /\ 0 \in 0..(b - 1) /\ 0 = b * 0 + 0 BY Base
  <2> QED BY <2>1
<1>2. \A n \in Nat : Q(n) => Q(n + 1)
  <2>1. TAKE n \in Nat
  <2>2. HAVE Q(n)
  <2>3. PICK q \in Nat, r \in 0..(b - 1) : n = b * q + r BY <2>2
  <2>4. CASE r < b - 1
    <3>1. r + 1 \in 0..(b - 1) /\ n + 1 = b * q + (r + 1) BY <2>3, <2>4, Base
    <3> QED BY <3>1
  <2>5. CASE r = b - 1
    <3>1. b * (q + 1) = b * q + b BY Base
    <3>2. q + 1 \in Nat /\ 0 \in 0..(b - 1) /\ n + 1 = b * (q + 1) + 0 BY <2>3, <2>5, <3>1, Base
    <3> QED BY <3>2
  <2> QED BY <2>4, <2>5, Base
<1> HIDE DEF Q
<1>3. \A n \in Nat : Q(n) BY <1>1, <1>2, NatInduction, Isa
<1> QED BY <1>3 DEF Q

(* every number below b^w is the value of a row: the digits that repeated  *)
(* division finds give it back                                             *)
THEOREM Back ==
  \A w \in Nat : \A n \in Nat : n < Pow[w] => \E d \in Rows : Val(w, d) = n
<1> DEFINE Q(w) == \A n \in Nat : n < Pow[w] => \E d \in Rows : Val(w, d) = n
<1>1. Q(0)
  <2>1. TAKE n \in Nat
  <2>2. HAVE n < Pow[0]
  <2>3. n = 0 BY <2>2, Powers
  <2>4. [i \in Nat |-> 0] \in Rows BY Base DEF Rows
  <2> QED BY <2>3, <2>4, Values
<1>2. \A w \in Nat : Q(w) => Q(w + 1)
  <2>1. TAKE w \in Nat
  <2>2. HAVE Q(w)
  <2>3. TAKE n \in Nat
  <2>4. HAVE n < Pow[w + 1]
  <2>5. PICK q \in Nat, r \in 0..(b - 1) : n = b * q + r BY Divide
  <2>6. q < Pow[w]
    <3>1. Pow[w + 1] = b * Pow[w] /\ Pow[w] \in Nat BY Powers
    <3>2. SUFFICES ASSUME Pow[w] <= q PROVE FALSE BY <2>5, <3>1
    <3>3. b * q = b * Pow[w] + b * (q - Pow[w]) /\ b * (q - Pow[w]) >= 0 BY <3>1, <3>2, <2>5, Base
    <3>4. b * q \in Nat /\ b * Pow[w] \in Nat /\ b * (q - Pow[w]) \in Int BY <3>1, <2>5, Base
    <3>5. n >= b * q BY <2>5, <3>4
    <3>6. b * q >= b * Pow[w] BY <3>3, <3>4
    <3> QED BY <3>1, <3>4, <3>5, <3>6, <2>4
  <2>7. PICK d \in Rows : Val(w, d) = q BY <2>2, <2>5, <2>6
  <2> DEFINE e == [i \in Nat |-> IF i = 0 THEN r ELSE d[i - 1]]
  <2>8. e \in Rows
    <3>1. \A i \in Nat : i # 0 => i - 1 \in Nat OBVIOUS
    <3> QED BY <2>5, <3>1 DEF Rows
  <2>9. e[0] = r OBVIOUS
  <2>10. Rest(e) = d
    <3>1. \A i \in Nat : i + 1 \in Nat /\ i + 1 # 0 /\ (i + 1) - 1 = i OBVIOUS
    <3>2. \A i \in Nat : Rest(e)[i] = d[i] BY <3>1 DEF Rest
    <3>3. Rest(e) = [i \in Nat |-> Rest(e)[i]] BY DEF Rest
    <3>4. d = [i \in Nat |-> d[i]] BY DEF Rows
    <3> QED BY <3>2, <3>3, <3>4
  <2> HIDE DEF e
  <2>11. Val(w + 1, e) = r + b * q BY <2>7, <2>8, <2>9, <2>10, Values
  <2>12. Val(w + 1, e) = n BY <2>11, <2>5, Base
  <2> QED BY <2>8, <2>12
<1> HIDE DEF Q
<1>3. \A w \in Nat : Q(w) BY <1>1, <1>2, NatInduction, Isa
<1> QED BY <1>3 DEF Q
=============================================================================
