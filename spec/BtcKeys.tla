------------------------------ MODULE BtcKeys -------------------------------
(***************************************************************************)
(* The library as a state machine.  A state is the set of keys a caller    *)
(* holds; a step is one public call (or something the caller does to its   *)
(* own keys).  Each call has a result operator, named ...R, that gives its *)
(* response as a function of its arguments and nothing else, and an action *)
(* that performs it.  Key and phrase generation are nondeterministic: the  *)
(* operators Generated and GeneratedPhrase say which responses are allowed.*)
(*                                                                         *)
(* The constants make it the real library (Secp256k1.tla) or a small one   *)
(* that TLC explores completely (Toy.tla).                                 *)
(***************************************************************************)
EXTENDS Codec, Curve, Bip39, FiniteSets, TLC

CONSTANTS
  P, N, B, G,        \* field, group order, curve y^2 = x^3 + B, generator
  KW,                \* bytes of a scalar or coordinate (32)
  CK,                \* bytes of a Base58Check checksum (4)
  CR, WB,            \* BIP39: entropy bits for a checksum bit (32), bits of a word (11)
  EntropySizes,      \* entropy sizes in bytes
  Iterations         \* of PBKDF2 (2048)

VARIABLES
  priv,              \* private keys held: handle -> [k, hex, wif, net]
  pub,               \* public keys held: handle -> [x, y, net]
  out                \* response of the last call

keysVars == <<priv, pub, out>>

----------------------------------------------------------------------------
(* Responses.  o is "ok" or "err"; an error carries nothing.               *)
Err == [o |-> "err"]
OkKey(r) == [o |-> "ok", key |-> r]
OkText(t) == [o |-> "ok", txt |-> t]
IsOk(r) == r.o = "ok"

(* A network is [pk, ph]: two texts of hex digits, the bytes in front of   *)
(* private keys and of address hashes.                                     *)
WellFormed(net) == /\ Len(net.pk) = 2 /\ IsHexText(net.pk)
                   /\ Len(net.ph) = 2 /\ IsHexText(net.ph)
PrivByte(net) == HexDecode(net.pk)
AddrByte(net) == HexDecode(net.ph)
SameNet(a, b) == a = b

InRange(k) == k # <<>> /\ Lt(k, N)

----------------------------------------------------------------------------
(* Private keys *)
HexOf(k) == HexEncode(Pad(k, KW))
WifOf(k, net) == B58CheckEncode(PrivByte(net) \o Pad(k, KW), CK)
CompressedWifOf(k, net) == B58CheckEncode(PrivByte(net) \o Pad(k, KW) \o <<1>>, CK)
PrivOf(k, net) == [k |-> k, hex |-> HexOf(k), wif |-> WifOf(k, net), net |-> net]

CheckWifR(t) == B58CheckOk(t, CK)

ImportHexR(t, net) ==
  IF Len(t) = 2 * KW /\ IsHexText(t) /\ InRange(Strip(HexDecode(t)))
  THEN LET k == Strip(HexDecode(t))
       IN  OkKey([k |-> k, hex |-> t, wif |-> WifOf(k, net), net |-> net])
  ELSE Err

WifOnNet(t, net) ==      \* for texts with a valid checksum
  LET p == B58CheckPayload(t, CK)
      w == Len(PrivByte(net))
  IN  Len(p) >= w /\ SubSeq(p, 1, w) = PrivByte(net)
WifBody(t, net) == LET p == B58CheckPayload(t, CK)
                   IN  SubSeq(p, Len(PrivByte(net)) + 1, Len(p))
WifScalarOk(b) == /\ Len(b) = KW \/ (Len(b) = KW + 1 /\ b[KW + 1] = 1)
                  /\ InRange(Strip(SubSeq(b, 1, KW)))
ImportWifR(t, net) ==
  IF ~CheckWifR(t) \/ ~WifOnNet(t, net) THEN Err
  ELSE LET b == WifBody(t, net)
       IN  IF WifScalarOk(b)
           THEN LET k == Strip(SubSeq(b, 1, KW))
                IN  OkKey([k |-> k, hex |-> HexOf(k), wif |-> t, net |-> net])
           ELSE Err

AddPrivR(a, b) ==
  IF ~SameNet(a.net, b.net) \/ a.k = b.k THEN Err
  ELSE LET s == ModAdd(a.k, b.k, N)
       IN  IF s = <<>> THEN Err ELSE OkKey(PrivOf(s, a.net))

MulPrivR(a, b) ==
  IF ~SameNet(a.net, b.net) \/ a.k = b.k THEN Err
  ELSE OkKey(PrivOf(ModMul(a.k, b.k, N), a.net))

(* any valid key of the network *)
Generated(net, r) == /\ IsOk(r)
                     /\ InRange(r.key.k)
                     /\ r.key = PrivOf(r.key.k, net)

----------------------------------------------------------------------------
(* Public keys *)
PubOf(k, net) == LET pt == EcMul(k, G, P) IN [x |-> pt[1], y |-> pt[2], net |-> net]
PubR(a) == IF InRange(a.k) THEN OkKey(PubOf(a.k, a.net)) ELSE Err

FormatR(p, compressed) ==
  HexEncode(IF compressed THEN <<IF Odd(p.y) THEN 3 ELSE 2>> \o Pad(p.x, KW)
            ELSE <<4>> \o Pad(p.x, KW) \o Pad(p.y, KW))

ImportPubR(t, net) ==
  IF ~IsHexText(t) \/ Len(t) \notin {2 + 2 * KW, 2 + 4 * KW} THEN Err
  ELSE LET b == HexDecode(t)
           x == Strip(SubSeq(b, 2, KW + 1))
       IN  IF b[1] = 4 /\ Len(b) = 1 + 2 * KW
           THEN LET y == Strip(SubSeq(b, KW + 2, 2 * KW + 1))
                IN  IF OnCurve(<<x, y>>, B, P) THEN OkKey([x |-> x, y |-> y, net |-> net]) ELSE Err
           ELSE IF b[1] \in {2, 3} /\ Len(b) = 1 + KW /\ Lt(x, P) /\ HasX(x, B, P)
           THEN LET pt == LiftX(x, b[1] = 3, B, P)
                IN  OkKey([x |-> pt[1], y |-> pt[2], net |-> net])
           ELSE Err

Hash160(b) == Ripemd160(Sha256(b))
AddressR(p, compressed) ==
  B58CheckEncode(AddrByte(p.net) \o Hash160(HexDecode(FormatR(p, compressed))), CK)

AddPubR(a, b) ==
  IF ~SameNet(a.net, b.net) THEN Err
  ELSE LET s == EcAdd(<<a.x, a.y>>, <<b.x, b.y>>, P)
       IN  IF s = Infinity THEN Err ELSE OkKey([x |-> s[1], y |-> s[2], net |-> a.net])

----------------------------------------------------------------------------
(* Mnemonics.  A word list is a sequence of words; it has to have 2^WB.    *)
ListOk(list) == Len(list) = 2 ^ WB
WordCounts == {(8 * e + (8 * e) \div CR) \div WB : e \in EntropySizes}
Space == 32

PhraseOf(ent, list) ==
  LET ix == EntropyToIndices(ent, CR, WB)
  IN  Join([i \in DOMAIN ix |-> list[ix[i] + 1]], <<Space>>)
PhraseIndices(t, list) == LET ws == Split(t, Space) IN [i \in DOMAIN ws |-> IndexOf(list, ws[i])]
PhraseOk(t, list) ==
  /\ ListOk(list)
  /\ LET ix == PhraseIndices(t, list)
     IN  /\ Len(ix) \in WordCounts
         /\ \A i \in DOMAIN ix : ix[i] >= 0
         /\ IndicesOk(ix, CR, WB)
PhraseEntropy(t, list) == IndicesEntropy(PhraseIndices(t, list), CR, WB)

(* which phrases may be generated: an error is due exactly for other       *)
(* lengths and lists                                                       *)
GeneratedPhrase(words, list, r) ==
  IF words \in WordCounts /\ ListOk(list)
  THEN IsOk(r) /\ PhraseOk(r.txt, list) /\ Len(Split(r.txt, Space)) = words
  ELSE r = Err

SeedR(t, pass, list) ==
  IF PhraseOk(t, list) THEN OkText(Pbkdf2(t, SaltWord \o pass, Iterations)) ELSE Err

----------------------------------------------------------------------------
(* Actions: h is where the caller keeps the result; an error leaves        *)
(* nothing there.  No action touches any other key.                        *)
Without(f, h) == [x \in DOMAIN f \ {h} |-> f[x]]
Put(f, h, r) == IF IsOk(r) THEN (h :> r.key) @@ f ELSE Without(f, h)

ToPriv(h, r) == /\ out' = r /\ priv' = Put(priv, h, r) /\ UNCHANGED pub
ToPub(h, r)  == /\ out' = r /\ pub' = Put(pub, h, r) /\ UNCHANGED priv
Pure(r)      == /\ out' = r /\ UNCHANGED <<priv, pub>>

CheckWif(t)          == Pure([o |-> "ok", b |-> CheckWifR(t)])
ImportHex(h, t, net) == ToPriv(h, ImportHexR(t, net))
ImportWif(h, t, net) == ToPriv(h, ImportWifR(t, net))
Generate(h, k, net)  == InRange(k) /\ ToPriv(h, OkKey(PrivOf(k, net)))
AddPriv(h, a, b)     == a \in DOMAIN priv /\ b \in DOMAIN priv /\ ToPriv(h, AddPrivR(priv[a], priv[b]))
MulPriv(h, a, b)     == a \in DOMAIN priv /\ b \in DOMAIN priv /\ ToPriv(h, MulPrivR(priv[a], priv[b]))
GetPub(h, a)         == a \in DOMAIN priv /\ ToPub(h, PubR(priv[a]))
ImportPub(h, t, net) == ToPub(h, ImportPubR(t, net))
Format(a, c)         == a \in DOMAIN pub /\ Pure(OkText(FormatR(pub[a], c)))
Address(a, c)        == a \in DOMAIN pub /\ Pure(OkText(AddressR(pub[a], c)))
AddPub(h, a, b)      == a \in DOMAIN pub /\ b \in DOMAIN pub /\ ToPub(h, AddPubR(pub[a], pub[b]))
NewPhrase(ent, list) == Pure(IF Len(ent) \in EntropySizes /\ ListOk(list)
                             THEN OkText(PhraseOf(ent, list)) ELSE Err)
NewSeed(t, pass, list) == Pure(SeedR(t, pass, list))

(* What a caller does without the library: build a key (with or without    *)
(* its texts), overwrite one in place, forget one or all.                  *)
Literal(h, k, net) == priv' = (h :> PrivOf(k, net)) @@ priv /\ UNCHANGED <<pub, out>>
Rekey(h, k)        == /\ h \in DOMAIN priv
                      /\ priv' = [priv EXCEPT ![h] = PrivOf(k, @.net)]
                      /\ UNCHANGED <<pub, out>>
NumberOnly(h, k, net) == priv' = (h :> [k |-> k, hex |-> <<>>, wif |-> <<>>, net |-> net]) @@ priv /\ UNCHANGED <<pub, out>>
Renumber(h, k)     == h \in DOMAIN priv /\ priv' = [priv EXCEPT ![h].k = k] /\ UNCHANGED <<pub, out>>
Ruin               == priv' = <<>> /\ pub' = <<>> /\ UNCHANGED out
Forget(h)          == priv' = Without(priv, h) /\ UNCHANGED <<pub, out>>
PubLiteral(h, x, y, net) == pub' = (h :> [x |-> x, y |-> y, net |-> net]) @@ pub /\ UNCHANGED <<priv, out>>
ForgetPub(h)       == pub' = Without(pub, h) /\ UNCHANGED <<priv, out>>

Init == priv = <<>> /\ pub = <<>> /\ out = Err

----------------------------------------------------------------------------
(* The properties, as predicates over states.                              *)

(* C01, C05, C07: every key held is a scalar in range with its hex and a   *)
(* WIF of it.                                                              *)
Whole == {h \in DOMAIN priv : priv[h].hex # <<>>}      \* not a number only
KeysValid == \A h \in Whole :
  LET p == priv[h]
  IN  /\ InRange(p.k)
      /\ Len(p.hex) = 2 * KW /\ LowerHex(p.hex) = HexOf(p.k)
      /\ p.wif \in {WifOf(p.k, p.net), CompressedWifOf(p.k, p.net)}

(* C02 *)
RoundTrip == \A h \in Whole :
  LET p == priv[h]
  IN  /\ ImportWifR(p.wif, p.net) = OkKey([p EXCEPT !.hex = LowerHex(@)])
      /\ LET r == ImportHexR(p.hex, p.net)
         IN  IsOk(r) /\ r.key.k = p.k /\ r.key.hex = p.hex
      /\ ImportWifR(WifOf(p.k, p.net), p.net).key.k = p.k
      /\ ImportWifR(CompressedWifOf(p.k, p.net), p.net).key.k = p.k
      /\ CheckWifR(p.wif)

(* C04, given the networks in use *)
NetworkBinding(nets) == \A h \in Whole : \A n \in nets :
  PrivByte(n) # PrivByte(priv[h].net) => ImportWifR(priv[h].wif, n) = Err
NoMixing == /\ \A a, b \in DOMAIN priv : priv[a].net # priv[b].net =>
                  AddPrivR(priv[a], priv[b]) = Err /\ MulPrivR(priv[a], priv[b]) = Err
            /\ \A a, b \in DOMAIN pub : pub[a].net # pub[b].net => AddPubR(pub[a], pub[b]) = Err

(* C07 *)
Commutes == \A a, b \in DOMAIN priv : /\ AddPrivR(priv[a], priv[b]) = AddPrivR(priv[b], priv[a])
                                      /\ MulPrivR(priv[a], priv[b]) = MulPrivR(priv[b], priv[a])

(* C08, C11 *)
PointsValid == \A h \in DOMAIN pub : OnCurve(<<pub[h].x, pub[h].y>>, B, P)

(* C09 *)
Homomorphism == \A a, b \in DOMAIN priv :
  LET s == AddPrivR(priv[a], priv[b])
      t == AddPubR(PubOf(priv[a].k, priv[a].net), PubOf(priv[b].k, priv[b].net))
  IN  /\ IsOk(s) => t = PubR(s.key)
      /\ ModAdd(priv[a].k, priv[b].k, N) = <<>> => t = Err
PubCommutes == \A a, b \in DOMAIN pub : AddPubR(pub[a], pub[b]) = AddPubR(pub[b], pub[a])

(* C10 *)
PubRoundTrip == \A h \in DOMAIN pub : \A c \in BOOLEAN :
  ImportPubR(FormatR(pub[h], c), pub[h].net) = OkKey(pub[h])

(* C12 *)
AddressesBind == \A h \in DOMAIN pub : \A c \in BOOLEAN :
  LET t == AddressR(pub[h], c)
  IN  CheckWifR(t) /\ SubSeq(B58CheckPayload(t, CK), 1, 1) = AddrByte(pub[h].net)
=============================================================================
