---------------------------- MODULE LadderProof -----------------------------
(***************************************************************************)
(* C08, C09 for every scalar and every group: what Ladder.tla checks on    *)
(* small curves, proved (tlapm).  E is any commutative group whose element *)
(* G has the odd order N > 4; M[n] is n times G.                           *)
(***************************************************************************)
EXTENDS Integers, NaturalsInduction, TLAPS

CONSTANTS E, _ (+) _, O, Neg(_), G, N, M

ASSUME Group ==
  /\ O \in E /\ G \in E
  /\ \A a, b \in E : a (+) b \in E /\ a (+) b = b (+) a
  /\ \A a, b, c \in E : (a (+) b) (+) c = a (+) (b (+) c)
  /\ \A a \in E : a (+) O = a /\ Neg(a) \in E /\ a (+) Neg(a) = O
ASSUME Multiples == /\ M \in [Nat -> E] /\ M[0] = O /\ \A n \in Nat : M[n + 1] = M[n] (+) G
ASSUME Order == /\ N \in Nat /\ N > 4 /\ \E h \in Nat : N = 2 * h + 1
                /\ M[N] = O /\ \A n \in 1..(N - 1) : M[n] # O

----------------------------------------------------------------------------
THEOREM Sum == \A a, b \in Nat : M[a + b] = M[a] (+) M[b]
<1>1. TAKE a \in Nat
<1> DEFINE Q(b) == M[a + b] = M[a] (+) M[b]
<1>2. Q(0) BY Group, Multiples
<1>3. \A b \in Nat : Q(b) => Q(b + 1)
  <2>1. TAKE b \in Nat
  <2>2. HAVE Q(b)
  <2>3. M[a + (b + 1)] = M[a + b] (+) G
    <3>1. a + b \in Nat /\ a + (b + 1) = (a + b) + 1 OBVIOUS
    <3> QED BY <3>1, Multiples
  <2>4. M[a] \in E /\ M[b] \in E BY Multiples
  <2>5. (M[a] (+) M[b]) (+) G = M[a] (+) (M[b] (+) G) BY <2>4, Group
  <2>6. M[b + 1] = M[b] (+) G BY Multiples
  <2> QED BY <2>2, <2>3, <2>5, <2>6
<1> HIDE DEF Q
<1>4. \A b \in Nat : Q(b) BY <1>2, <1>3, NatInduction, Isa
<1> QED BY <1>4 DEF Q

THEOREM Period == \A a, j \in Nat : M[a + j * N] = M[a]
<1>1. TAKE a \in Nat
<1> DEFINE Q(j) == M[a + j * N] = M[a]
<1>2. Q(0) BY Order, Multiples
<1>3. \A j \in Nat : Q(j) => Q(j + 1)
  <2>1. TAKE j \in Nat
  <2>2. HAVE Q(j)
  <2>3. a + j * N \in Nat /\ a + (j + 1) * N = (a + j * N) + N BY Order
  <2>4. M[(a + j * N) + N] = M[a + j * N] (+) M[N] BY <2>3, Sum, Order
  <2>5. M[a + j * N] (+) O = M[a + j * N] BY <2>3, Multiples, Group
  <2> QED BY <2>2, <2>3, <2>4, <2>5, Order
<1> HIDE DEF Q
<1>4. \A j \in Nat : Q(j) BY <1>2, <1>3, NatInduction, Isa
<1> QED BY <1>4 DEF Q

(* C09: the public key of the sum of private keys is the sum of the public *)
(* keys; it is the identity exactly when there is no such private key.     *)
THEOREM Homomorphism ==
  \A a, b, s, j \in Nat : a + b = s + j * N /\ s < N =>
     /\ M[a] (+) M[b] = M[s]
     /\ (M[a] (+) M[b] = O <=> s = 0)
<1>1. TAKE a, b, s, j \in Nat
<1>2. HAVE a + b = s + j * N /\ s < N
<1>3. M[a] (+) M[b] = M[s] BY <1>2, Sum, Period
<1>4. s # 0 => s \in 1..(N - 1) BY <1>2, Order
<1> QED BY <1>3, <1>4, Order, Multiples

(* N - k and a change of sign give the same as k *)
THEOREM Fold == \A k \in 1..(N - 1) : Neg(M[N - k]) = M[k]
<1>1. TAKE k \in 1..(N - 1)
<1>2. k \in Nat /\ N - k \in Nat /\ k + (N - k) = N BY Order
<1> DEFINE a == M[N - k]  b == M[k]
<1>3. a \in E /\ b \in E /\ Neg(a) \in E BY <1>2, Multiples, Group
<1>4. b (+) a = O BY <1>2, Sum, Order
<1> HIDE DEF a, b
<1>5. Neg(a) = O (+) Neg(a) BY <1>3, Group
<1>6. O (+) Neg(a) = (b (+) a) (+) Neg(a) BY <1>4
<1>7. (b (+) a) (+) Neg(a) = b (+) (a (+) Neg(a)) BY <1>3, Group
<1>8. b (+) (a (+) Neg(a)) = b BY <1>3, Group
<1> QED BY <1>5, <1>6, <1>7, <1>8 DEF a, b

----------------------------------------------------------------------------
(* The ladder: m is the part of k read so far, rest what is left of it, w  *)
(* the power of two that rest is below of.                                 *)
CONSTANTS k, W
ASSUME Scalar == /\ k \in Nat /\ 1 <= k /\ 2 * k < N
                 /\ W \in Nat /\ k < W

VARIABLES m, rest, w, r0, r1, dead
vars == <<m, rest, w, r0, r1, dead>>

(* an addition that cannot be done: points that add up to the identity     *)
Bad(p, q) == p # O /\ q # O /\ p (+) q = O

Init == m = 0 /\ rest = k /\ w = W /\ r0 = O /\ r1 = G /\ dead = FALSE
Zero(v) == /\ rest < v
           /\ dead' = (Bad(r0, r1) \/ Bad(r0, r0))
           /\ m' = 2 * m /\ rest' = rest /\ r0' = r0 (+) r0 /\ r1' = r1 (+) r0
One(v)  == /\ v <= rest
           /\ dead' = (Bad(r0, r1) \/ Bad(r1, r1))
           /\ m' = 2 * m + 1 /\ rest' = rest - v /\ r0' = r0 (+) r1 /\ r1' = r1 (+) r1
Next == \E v \in Nat : w = 2 * v /\ v > 0 /\ w' = v /\ (Zero(v) \/ One(v))
Spec == Init /\ [][Next]_vars

Inv == /\ m \in Nat /\ rest \in Nat /\ w \in Nat /\ w > 0 /\ rest < w
       /\ k = m * w + rest
       /\ r0 = M[m] /\ r1 = M[m + 1]
       /\ dead = FALSE

LEMMA Nonzero == \A n \in Nat : n > 0 /\ n < N => M[n] # O
BY Order

LEMMA InvInit == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv OBVIOUS
<1>1. M[1] = G
  <2>1. M[0 + 1] = M[0] (+) G BY Multiples
  <2>2. O (+) G = G BY Group
  <2> QED BY <2>1, <2>2, Multiples
<1>2. k = 0 * W + k /\ W > 0 BY Scalar
<1> QED BY <1>1, <1>2, Scalar, Multiples DEF Init, Inv

LEMMA Small == ASSUME NEW a \in Nat, NEW v \in Nat, NEW r \in Nat, v > 0, k = a * (2 * v) + r
               PROVE 2 * a <= k /\ (v <= r => 2 * a + 1 <= k)
<1>1. a * (2 * v) = (2 * a) * v OBVIOUS
<1>2. (2 * a) * v >= 2 * a
  <2>1. v = 1 + (v - 1) /\ v - 1 \in Nat OBVIOUS
  <2>2. (2 * a) * v = 2 * a + (2 * a) * (v - 1) BY <2>1
  <2>3. (2 * a) * (v - 1) >= 0 BY <2>1
  <2> QED BY <2>2, <2>3
<1> QED BY <1>1, <1>2, Scalar

LEMMA InvNext == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
<1>1. CASE UNCHANGED vars BY <1>1 DEF vars, Inv
<1>2. CASE Next
  <2>1. PICK v \in Nat : w = 2 * v /\ v > 0 /\ w' = v /\ (Zero(v) \/ One(v)) BY <1>2 DEF Next
  <2>2. m \in Nat /\ m + 1 \in Nat /\ 2 * m \in Nat /\ rest \in Nat BY DEF Inv
  <2>3. k = m * (2 * v) + rest BY <2>1 DEF Inv
  <2>4. 2 * m <= k /\ (v <= rest => 2 * m + 1 <= k) BY <2>1, <2>2, <2>3, Small
  <2>5. M[2 * m] = M[m] (+) M[m]
    <3>1. 2 * m = m + m BY <2>2
    <3> QED BY <3>1, <2>2, Sum
  <2>6. M[2 * m + 1] = M[m] (+) M[m + 1] /\ M[2 * m + 1] = M[m + 1] (+) M[m]
    <3>1. 2 * m + 1 = m + (m + 1) /\ 2 * m + 1 = (m + 1) + m BY <2>2
    <3> QED BY <3>1, <2>2, Sum
  <2>7. M[(2 * m + 1) + 1] = M[m + 1] (+) M[m + 1]
    <3>1. (2 * m + 1) + 1 = (m + 1) + (m + 1) BY <2>2
    <3> QED BY <3>1, <2>2, Sum
  <2>8. ~Bad(r0, r1)
    <3>1. 2 * m + 1 \in Nat /\ 2 * m + 1 > 0 /\ 2 * m + 1 < N BY <2>2, <2>4, Scalar, Order
    <3>2. M[2 * m + 1] # O BY <3>1, Nonzero
    <3> QED BY <3>2, <2>6 DEF Bad, Inv
  <2>9. ~Bad(r0, r0)
    <3>1. CASE m = 0 BY <3>1, Multiples DEF Bad, Inv
    <3>2. CASE m # 0
      <4>1. 2 * m \in Nat /\ 2 * m > 0 /\ 2 * m < N BY <3>2, <2>2, <2>4, Scalar, Order
      <4> QED BY <4>1, Nonzero, <2>5 DEF Bad, Inv
    <3> QED BY <3>1, <3>2
  <2>10. CASE Zero(v)
    <3>1. m' \in Nat /\ rest' \in Nat /\ w' \in Nat /\ w' > 0 /\ rest' < w' BY <2>10, <2>1, <2>2 DEF Zero
    <3>2. k = (2 * m) * v + rest BY <2>1, <2>2, <2>3
    <3>3. r0' = M[m'] /\ r1' = M[m' + 1] BY <2>10, <2>5, <2>6 DEF Zero, Inv
    <3>4. dead' = FALSE BY <2>10, <2>8, <2>9 DEF Zero
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <2>1, <2>10 DEF Zero, Inv
  <2>11. CASE One(v)
    <3>0. rest < 2 * v /\ v <= rest /\ rest' = rest - v /\ m' = 2 * m + 1 /\ w' = v BY <2>11, <2>1 DEF One, Inv
    <3>1. m' \in Nat /\ rest' \in Nat /\ w' \in Nat /\ w' > 0 /\ rest' < w' BY <3>0, <2>1, <2>2
    <3>2. k = (2 * m + 1) * v + (rest - v)
      <4>1. (2 * m + 1) * v = (2 * m) * v + v BY <2>1, <2>2
      <4>2. (2 * m) * v = m * (2 * v) BY <2>1, <2>2
      <4> QED BY <4>1, <4>2, <2>1, <2>2, <2>3
    <3>3. r0' = M[m'] /\ r1' = M[m' + 1] BY <2>11, <2>6, <2>7 DEF One, Inv
    <3>4. ~Bad(r1, r1)
      <4>1. 2 * m + 1 <= k BY <2>4, <2>11 DEF One
      <4>2. (2 * m + 1) + 1 \in Nat /\ (2 * m + 1) + 1 > 0 /\ (2 * m + 1) + 1 < N
        <5>1. k + 1 < N BY Scalar, Order
        <5> QED BY <5>1, <4>1, <2>2, Scalar, Order
      <4> QED BY <4>2, Nonzero, <2>7 DEF Bad, Inv
    <3>5. dead' = FALSE BY <2>11, <2>8, <3>4 DEF One
    <3> QED BY <3>1, <3>2, <3>3, <3>5, <2>1, <2>11 DEF One, Inv
  <2> QED BY <2>1, <2>10, <2>11
<1> QED BY <1>1, <1>2

(* C08: the ladder never meets an addition it cannot do, and ends with kG  *)
THEOREM Right == Spec => [](~dead /\ (w = 1 => r0 = M[k]))
<1>1. Spec => []Inv BY InvInit, InvNext, PTL DEF Spec
<1>2. Inv => ~dead /\ (w = 1 => r0 = M[k])
  <2> SUFFICES ASSUME Inv PROVE ~dead /\ (w = 1 => r0 = M[k]) OBVIOUS
  <2>1. w = 1 => rest = 0 /\ k = m BY DEF Inv
  <2> QED BY <2>1 DEF Inv
<1> QED BY <1>1, <1>2, PTL
=============================================================================
