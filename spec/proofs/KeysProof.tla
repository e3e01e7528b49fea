----------------------------- MODULE KeysProof ------------------------------
(***************************************************************************)
(* C01, C02, C04, C05 and C07 for every group order, every set of networks *)
(* and every history of calls: what Toy.tla checks on small instances,     *)
(* proved (tlapm) from what is assumed of the encodings.  A scalar is a    *)
(* number here, and Wif and Hex are any functions that do not confuse two  *)
(* arguments (ToyTexts.tla checks that of the texts of Codec.tla).         *)
(***************************************************************************)
EXTENDS Integers, TLAPS

CONSTANTS N,                 \* the group order
          Nets, Byte(_),     \* networks, and the byte in front of their private keys
          Handles,
          Hex(_), Wif(_, _, _)  \* texts: of k, and of k, a network byte, and whether it is marked as compressed

Scalars == 1..(N - 1)
ASSUME Prime == /\ N \in Nat /\ N > 2
                /\ \A a, b \in Scalars : (a * b) % N # 0
ASSUME HexInjective == \A a, b \in Scalars : Hex(a) = Hex(b) => a = b
ASSUME WifInjective == \A a, b \in Scalars : \A m, n \in Nets : \A c, d \in BOOLEAN :
                          Wif(a, Byte(m), c) = Wif(b, Byte(n), d) => a = b /\ Byte(m) = Byte(n) /\ c = d

None == [ok |-> FALSE]
Key(k, h, w, n) == [ok |-> TRUE, k |-> k, hex |-> h, wif |-> w, net |-> n]
KeyOf(k, n) == Key(k, Hex(k), Wif(k, Byte(n), FALSE), n)

(* results of the calls *)
HexText(t) == \E k \in Scalars : t = Hex(k)
ImportHex(t, n) == IF HexText(t) THEN KeyOf(CHOOSE k \in Scalars : t = Hex(k), n) ELSE None
WifText(t, n) == \E k \in Scalars : \E c \in BOOLEAN : t = Wif(k, Byte(n), c)
WifScalar(t, n) == CHOOSE k \in Scalars : \E c \in BOOLEAN : t = Wif(k, Byte(n), c)
ImportWif(t, n) == IF WifText(t, n) THEN Key(WifScalar(t, n), Hex(WifScalar(t, n)), t, n) ELSE None
Sum(a, b)  == IF a.net # b.net \/ a.k = b.k \/ (a.k + b.k) % N = 0 THEN None ELSE KeyOf((a.k + b.k) % N, a.net)
Prod(a, b) == IF a.net # b.net \/ a.k = b.k THEN None ELSE KeyOf((a.k * b.k) % N, a.net)

VARIABLE priv                \* handle -> key, or None
Init == priv = [h \in Handles |-> None]
Put(h, r) == priv' = [priv EXCEPT ![h] = r]
Next == \E h \in Handles :
  \/ \E t, n : n \in Nets /\ Put(h, ImportHex(t, n))
  \/ \E t, n : n \in Nets /\ Put(h, ImportWif(t, n))
  \/ \E k \in Scalars, n \in Nets : Put(h, KeyOf(k, n))          \* generated
  \/ \E a, b \in Handles : priv[a].ok /\ priv[b].ok /\ (Put(h, Sum(priv[a], priv[b])) \/ Put(h, Prod(priv[a], priv[b])))
  \/ Put(h, None)
Spec == Init /\ [][Next]_priv

(* C01, C05: what is held is a scalar in range with its hex and a WIF of it on its network *)
Good(p) == \/ p = None
           \/ \E k \in Scalars, n \in Nets, c \in BOOLEAN : p = Key(k, Hex(k), Wif(k, Byte(n), c), n)

----------------------------------------------------------------------------
LEMMA KeyOfGood == ASSUME NEW k \in Scalars, NEW n \in Nets PROVE Good(KeyOf(k, n))
BY DEF Good, KeyOf

LEMMA ImportHexGood == ASSUME NEW t, NEW n \in Nets PROVE Good(ImportHex(t, n))
<1>1. CASE HexText(t)
  <2>1. (CHOOSE k \in Scalars : t = Hex(k)) \in Scalars BY <1>1 DEF HexText
  <2> QED BY <1>1, <2>1, KeyOfGood DEF ImportHex
<1>2. CASE ~HexText(t) BY <1>2 DEF ImportHex, Good
<1> QED BY <1>1, <1>2

LEMMA Scalar == ASSUME NEW t, NEW n \in Nets, WifText(t, n)
                PROVE /\ WifScalar(t, n) \in Scalars
                      /\ \E c \in BOOLEAN : t = Wif(WifScalar(t, n), Byte(n), c)
BY DEF WifText, WifScalar

LEMMA ImportWifGood == ASSUME NEW t, NEW n \in Nets PROVE Good(ImportWif(t, n))
<1>1. CASE WifText(t, n)
  <2>1. PICK c \in BOOLEAN : t = Wif(WifScalar(t, n), Byte(n), c) BY <1>1, Scalar
  <2>2. WifScalar(t, n) \in Scalars BY <1>1, Scalar
  <2> QED BY <1>1, <2>1, <2>2 DEF ImportWif, Good
<1>2. CASE ~WifText(t, n) BY <1>2 DEF ImportWif, Good
<1> QED BY <1>1, <1>2

LEMMA Parts == ASSUME NEW p, Good(p), p.ok
               PROVE \E k \in Scalars, n \in Nets, c \in BOOLEAN :
                       /\ p = Key(k, Hex(k), Wif(k, Byte(n), c), n)
                       /\ p.k = k /\ p.net = n /\ p.hex = Hex(k) /\ p.wif = Wif(k, Byte(n), c)
<1>1. p # None BY DEF None
<1> QED BY <1>1 DEF Good, Key

LEMMA ModRange == ASSUME NEW x \in Int, x % N # 0 PROVE x % N \in Scalars
BY Prime DEF Scalars

LEMMA SumGood == ASSUME NEW a, NEW b, Good(a), Good(b), a.ok, b.ok PROVE Good(Sum(a, b))
<1>1. a.k \in Scalars /\ a.net \in Nets BY Parts
<1>2. b.k \in Scalars BY Parts
<1>3. a.k + b.k \in Int BY <1>1, <1>2 DEF Scalars
<1>4. CASE a.net # b.net \/ a.k = b.k \/ (a.k + b.k) % N = 0 BY <1>4 DEF Sum, Good
<1>5. CASE ~(a.net # b.net \/ a.k = b.k \/ (a.k + b.k) % N = 0)
  <2>1. (a.k + b.k) % N \in Scalars BY <1>3, <1>5, ModRange
  <2> QED BY <1>1, <1>5, <2>1, KeyOfGood DEF Sum
<1> QED BY <1>4, <1>5

LEMMA ProdGood == ASSUME NEW a, NEW b, Good(a), Good(b), a.ok, b.ok PROVE Good(Prod(a, b))
<1>1. a.k \in Scalars /\ a.net \in Nets BY Parts
<1>2. b.k \in Scalars BY Parts
<1>3. a.k * b.k \in Int /\ (a.k * b.k) % N # 0 BY <1>1, <1>2, Prime DEF Scalars
<1>4. (a.k * b.k) % N \in Scalars BY <1>3, ModRange
<1> QED BY <1>1, <1>4, KeyOfGood DEF Prod, Good

THEOREM Safe == Spec => [](\A h \in Handles : Good(priv[h]))
<1> DEFINE J == (\E S : priv \in [Handles -> S]) /\ \A h \in Handles : Good(priv[h])
<1>1. Init => J
  <2> SUFFICES ASSUME Init PROVE J OBVIOUS
  <2>1. priv \in [Handles -> {None}] BY DEF Init
  <2>2. \A h \in Handles : Good(priv[h]) BY DEF Init, Good
  <2> QED BY <2>1, <2>2
<1>2. J /\ [Next]_priv => J'
  <2> SUFFICES ASSUME J, [Next]_priv PROVE J' OBVIOUS
  <2>1. CASE UNCHANGED priv BY <2>1
  <2>2. ASSUME NEW h \in Handles, NEW r, Put(h, r), Good(r) PROVE J'
    <3>1. PICK S : priv \in [Handles -> S] OBVIOUS
    <3>2. priv' \in [Handles -> S \cup {r}] BY <3>1, <2>2 DEF Put
    <3>3. \A g \in Handles : priv'[g] = IF g = h THEN r ELSE priv[g] BY <3>1, <2>2 DEF Put
    <3>4. \A g \in Handles : Good(priv'[g]) BY <3>3, <2>2
    <3> QED BY <3>2, <3>4
  <2>3. CASE Next
    <3>1. PICK h \in Handles :
            \/ \E t, n : n \in Nets /\ Put(h, ImportHex(t, n))
            \/ \E t, n : n \in Nets /\ Put(h, ImportWif(t, n))
            \/ \E k \in Scalars, n \in Nets : Put(h, KeyOf(k, n))
            \/ \E a, b \in Handles : priv[a].ok /\ priv[b].ok /\ (Put(h, Sum(priv[a], priv[b])) \/ Put(h, Prod(priv[a], priv[b])))
            \/ Put(h, None) BY <2>3 DEF Next
    <3>2. CASE \E t, n : n \in Nets /\ Put(h, ImportHex(t, n)) BY <3>2, <2>2, ImportHexGood
    <3>3. CASE \E t, n : n \in Nets /\ Put(h, ImportWif(t, n)) BY <3>3, <2>2, ImportWifGood
    <3>4. CASE \E k \in Scalars, n \in Nets : Put(h, KeyOf(k, n)) BY <3>4, <2>2, KeyOfGood
    <3>5. CASE \E a, b \in Handles : priv[a].ok /\ priv[b].ok /\ (Put(h, Sum(priv[a], priv[b])) \/ Put(h, Prod(priv[a], priv[b])))
      BY <3>5, <2>2, SumGood, ProdGood
    <3>6. CASE Put(h, None)
      <4>1. Good(None) BY DEF Good
      <4> QED BY <3>6, <4>1, <2>2
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <3>5, <3>6
  <2> QED BY <2>1, <2>3
<1>3. J => \A h \in Handles : Good(priv[h]) OBVIOUS
<1> QED BY <1>1, <1>2, <1>3, PTL DEF Spec

----------------------------------------------------------------------------
(* C02: a key goes out and comes back the same *)
THEOREM RoundTrip ==
  ASSUME NEW p, Good(p), p.ok
  PROVE /\ ImportWif(p.wif, p.net) = p
        /\ ImportHex(p.hex, p.net).k = p.k /\ ImportHex(p.hex, p.net).hex = p.hex
<1>1. PICK k \in Scalars, n \in Nets, c \in BOOLEAN :
          /\ p = Key(k, Hex(k), Wif(k, Byte(n), c), n)
          /\ p.k = k /\ p.net = n /\ p.hex = Hex(k) /\ p.wif = Wif(k, Byte(n), c) BY Parts
<1>2. WifText(p.wif, n) BY <1>1 DEF WifText
<1>3. WifScalar(p.wif, n) = k
  <2>1. PICK d \in BOOLEAN : p.wif = Wif(WifScalar(p.wif, n), Byte(n), d) BY <1>2, Scalar
  <2>2. WifScalar(p.wif, n) \in Scalars BY <1>2, Scalar
  <2> QED BY <1>1, <2>1, <2>2, WifInjective
<1>4. HexText(Hex(k)) /\ (CHOOSE j \in Scalars : Hex(k) = Hex(j)) = k
  <2>1. HexText(Hex(k)) BY DEF HexText
  <2>2. (CHOOSE j \in Scalars : Hex(k) = Hex(j)) \in Scalars /\ Hex(k) = Hex(CHOOSE j \in Scalars : Hex(k) = Hex(j)) BY <2>1 DEF HexText
  <2> QED BY <2>1, <2>2, HexInjective
<1>5. ImportHex(Hex(k), n) = KeyOf(k, n) BY <1>4 DEF ImportHex
<1> QED BY <1>1, <1>2, <1>3, <1>5 DEF ImportWif, KeyOf, Key

(* C04: a WIF imports only where its network byte is the one asked for *)
THEOREM Binding ==
  ASSUME NEW p, Good(p), p.ok, NEW n \in Nets, Byte(n) # Byte(p.net)
  PROVE ImportWif(p.wif, n) = None
<1>1. PICK k \in Scalars, m \in Nets, c \in BOOLEAN :
          p.k = k /\ p.net = m /\ p.wif = Wif(k, Byte(m), c) BY Parts
<1>2. ~WifText(p.wif, n)
  <2> SUFFICES ASSUME WifText(p.wif, n) PROVE FALSE OBVIOUS
  <2>1. PICK j \in Scalars, d \in BOOLEAN : p.wif = Wif(j, Byte(n), d) BY DEF WifText
  <2> QED BY <1>1, <2>1, WifInjective
<1> QED BY <1>2 DEF ImportWif

(* C07: the order of the operands does not matter *)
THEOREM Commutes ==
  ASSUME NEW a, NEW b, Good(a), Good(b), a.ok, b.ok
  PROVE Sum(a, b) = Sum(b, a) /\ Prod(a, b) = Prod(b, a)
<1>1. a.k \in Scalars /\ b.k \in Scalars BY Parts
<1>2. a.k + b.k = b.k + a.k /\ a.k * b.k = b.k * a.k BY <1>1 DEF Scalars
<1> QED BY <1>2 DEF Sum, Prod
=============================================================================
