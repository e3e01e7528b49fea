-------------------------------- MODULE Toy ---------------------------------
(***************************************************************************)
(* The machine of BtcKeys with constants so small that TLC visits every    *)
(* state: a curve of N = 13 (or 31, 43) points, scalars of one byte, a     *)
(* checksum of one byte.  The properties are invariants of the states and  *)
(* of the steps.                                                           *)
(***************************************************************************)
EXTENDS BtcKeys

CONSTANTS Handles,      \* names of private keys
          PubHandles    \* names of public keys

(* curves of prime order, p % 4 = 3: order 13 over 19 and over 7, 31 over  *)
(* 43, 43 over 31, 199 over 211                                            *)
C13P == <<19>>   C13N == <<13>>   C13B == <<2>>   C13G == << <<4>>, <<3>> >>
C7P == <<7>>     C7N == <<13>>    C7B == <<3>>    C7G == << <<1>>, <<2>> >>
C31P == <<43>>   C31N == <<31>>   C31B == <<7>>   C31G == << <<2>>, <<12>> >>
C43P == <<31>>   C43N == <<43>>   C43B == <<3>>   C43G == << <<1>>, <<2>> >>
C199P == <<211>> C199N == <<199>> C199B == <<2>>  C199G == << <<4>>, <<53>> >>

H(a, b) == <<a, b>>
NetA == [pk |-> H(56, 48), ph |-> H(48, 48)]          \* 80 00
NetB == [pk |-> H(101, 102), ph |-> H(54, 102)]       \* ef 6f
NetC == [pk |-> H(56, 48), ph |-> H(54, 102)]         \* 80 6f: shares a byte with both
NetZ == [pk |-> H(48, 48), ph |-> H(56, 48)]          \* 00 80: leading zeros
Nets == {NetA, NetB, NetC, NetZ}
FewNets == {NetB, NetC, NetZ}

Order == BitsVal([i \in 1..BitLen(N) |-> Bit(N, BitLen(N) - i)])
Scalars == {Nat2Big(k) : k \in 1..(Order - 1)}
Around == {Nat2Big(k) : k \in 0..(Order + 3)} \cup {<<255>>}

UpperHex(t) == [i \in DOMAIN t |-> IF t[i] \in 97..102 THEN t[i] - 32 ELSE t[i]]
HexTexts == {HexOf(k) : k \in Around} \cup {UpperHex(HexOf(k)) : k \in Around}
            \cup {<<>>, <<49>>, <<49, 120>>, <<48, 48, 49>>}
WifTexts == {WifOf(k, n) : k \in Around, n \in Nets} \cup {CompressedWifOf(k, n) : k \in Around, n \in Nets}
            \cup {<<>>, <<49>>, <<48>>, B58CheckEncode(<<128>>, CK), B58CheckEncode(<<128, 1, 2>>, CK), B58CheckEncode(<<128, 1, 1, 1>>, CK)}
HexTable == [t \in HexTexts, n \in Nets |-> ImportHexR(t, n)]
WifTable == [t \in WifTexts, n \in Nets |-> ImportWifR(t, n)]
Points == {EcMul(k, G, P) : k \in Scalars}
PubTexts == {FormatR([x |-> q[1], y |-> q[2]], c) : q \in Points, c \in BOOLEAN}
            \cup {HexEncode(<<p, 1>>) : p \in 0..8} \cup {HexEncode(<<4, 1, y>>) : y \in 0..4}
PubTable == [t \in PubTexts, n \in Nets |-> ImportPubR(t, n)]

PrivSteps == \E h \in Handles :
  \/ \E n \in Nets : \/ \E t \in HexTexts : ToPriv(h, HexTable[t, n])
                     \/ \E t \in WifTexts : ToPriv(h, WifTable[t, n])
                     \/ \E k \in Scalars : Generate(h, k, n)
  \/ \E a, b \in Handles : AddPriv(h, a, b) \/ MulPriv(h, a, b)
  \/ \E k \in Scalars : Rekey(h, k)
  \/ Forget(h)
PubSteps == \E h \in PubHandles :
  \/ \E n \in Nets, t \in PubTexts : ToPub(h, PubTable[t, n])
  \/ \E a \in Handles : GetPub(h, a)
  \/ \E a, b \in PubHandles : AddPub(h, a, b)
  \/ \E c \in BOOLEAN : Format(h, c) \/ Address(h, c)
  \/ ForgetPub(h)

Spec == Init /\ [][PrivSteps \/ PubSteps]_keysVars
View == <<priv, pub>>

----------------------------------------------------------------------------
Bindings == NetworkBinding(Nets)

(* a step that answers "err" adds no key; a step touches at most one name, *)
(* and other keys stay as they are *)
OneKey == [][/\ Cardinality({h \in Handles : (h \in DOMAIN priv) # (h \in DOMAIN priv')
                              \/ (h \in DOMAIN priv \cap DOMAIN priv' /\ priv[h] # priv'[h])}) <= 1
             /\ Cardinality({h \in PubHandles : (h \in DOMAIN pub) # (h \in DOMAIN pub')
                              \/ (h \in DOMAIN pub \cap DOMAIN pub' /\ pub[h] # pub'[h])}) <= 1
             /\ (priv' # priv => pub' = pub)]_keysVars

(* the public key tells the private one apart, on a group of prime order *)
Injective == \A a, b \in DOMAIN priv : PubOf(priv[a].k, NetA) = PubOf(priv[b].k, NetA) => priv[a].k = priv[b].k

(* sum and product are those of the integers modulo N *)
Ints == [b \in {Nat2Big(i) : i \in 0..255} |-> BitsVal([i \in 1..8 |-> Bit(b, 8 - i)])]
Arithmetic == \A a, b \in DOMAIN priv :
  LET x == Ints[priv[a].k] y == Ints[priv[b].k]
      s == AddPrivR(priv[a], priv[b]) m == MulPrivR(priv[a], priv[b])
  IN  /\ IsOk(s) <=> (priv[a].net = priv[b].net /\ x # y /\ (x + y) % Order # 0)
      /\ IsOk(s) => Ints[s.key.k] = (x + y) % Order
      /\ IsOk(m) <=> (priv[a].net = priv[b].net /\ x # y)
      /\ IsOk(m) => Ints[m.key.k] = (x * y) % Order

(* the addition of public keys is that of a group *)
Associates == \A a, b, c \in DOMAIN pub :
  LET q(h) == <<pub[h].x, pub[h].y>>
  IN  EcAdd(EcAdd(q(a), q(b), P), q(c), P) = EcAdd(q(a), EcAdd(q(b), q(c), P), P)

(* an address tells public keys of a network apart, and the two ways of    *)
(* writing one                                                             *)
AddressesDiffer == \A a, b \in DOMAIN pub, c, d \in BOOLEAN :
  AddressR(pub[a], c) = AddressR(pub[b], d) =>
     /\ AddrByte(pub[a].net) = AddrByte(pub[b].net)
     /\ pub[a].x = pub[b].x /\ (pub[a].y = pub[b].y) /\ c = d
=============================================================================
