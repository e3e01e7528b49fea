------------------------------ MODULE ToyTexts ------------------------------
(***************************************************************************)
(* Every text there is, up to a length, against the small machine of       *)
(* Toy.tla: each text is a state, and the readers of BtcKeys must take     *)
(* exactly the texts that its writers can produce (or, for hex, those in   *)
(* the other case).                                                        *)
(***************************************************************************)
EXTENDS Toy

CONSTANTS Kind,      \* "wif", "wif1" (texts that start with 1), "hex", "pub" or "phrase"
          Longest    \* how long the texts get (phrases: words)

VARIABLE t

Wifs == Kind \in {"wif", "wif1"}

(* one character outside the alphabet stands for all of them *)
WifChars == B58Chars \cup {48}
HexChars == (48..57) \cup (65..70) \cup (97..102) \cup {103}
Words == [i \in 1..2 ^ WB |-> IF i % 2 = 1 THEN <<96 + i>> ELSE <<96 + i, 96 + i>>]
Bytes == 0..255
Few == (0..50) \cup {127, 128} \cup (254..255)

(* texts grow by a character at a time, so that TLC shares the work *)
TInit == Init /\ t = IF Kind = "wif1" THEN <<49>> ELSE <<>>
TNext == /\ UNCHANGED keysVars
         /\ CASE Wifs -> Len(t) < Longest /\ \E c \in WifChars : t' = Append(t, c)
              [] Kind = "hex" -> Len(t) < Longest /\ \E c \in HexChars : t' = Append(t, c)
              [] Kind = "pub" -> \/ Len(t) <= 2 /\ \E b \in Bytes : t' = t \o HexEncode(<<b>>)
                                 \/ /\ Len(t) \in {4, 6} /\ HexDecode(t)[1] \in (0..8) \cup {64, 255}
                                    /\ HexDecode(t)[2] \in Few
                                    /\ \E b \in IF Len(t) = 4 THEN Few ELSE {0} : t' = t \o HexEncode(<<b>>)
                                 \/ Len(t) <= 4 /\ Len(t) % 2 = 0 /\ \E c \in {48, 52} : t' = Append(t, c)
              [] Kind = "phrase" -> /\ Len(Split(t, Space)) < Longest \/ t = <<>>
                                    /\ \E i \in DOMAIN Words : t' = IF t = <<>> THEN Words[i] ELSE t \o <<Space>> \o Words[i]
TSpec == TInit /\ [][TNext]_<<keysVars, t>>
TView == t

----------------------------------------------------------------------------
(* C03: a checksum is accepted exactly on what the encoder writes *)
WifAll == UNION {{WifOf(k, n), CompressedWifOf(k, n)} : k \in Scalars, n \in Nets}
WifExact == Wifs =>
  /\ CheckWifR(t) <=> (/\ t # <<>> /\ IsB58Text(t) /\ Len(Base58Decode(t)) >= CK
                       /\ B58CheckEncode(B58CheckPayload(t, CK), CK) = t)
  /\ IsB58Text(t) => Base58Encode(Base58Decode(t)) = t
  (* C05, C02, C04: a WIF is taken exactly when it is one of a key in range on the network *)
  /\ \A n \in Nets : LET r == ImportWifR(t, n)
                     IN  IsOk(r) => /\ InRange(r.key.k) /\ r.key.wif = t
                                    /\ t \in {WifOf(r.key.k, n), CompressedWifOf(r.key.k, n)}
  /\ t \in WifAll => \E n \in Nets : IsOk(ImportWifR(t, n))

(* C05 *)
HexExact == Kind = "hex" => \A n \in Nets :
  LET r == ImportHexR(t, n)
  IN  /\ IsOk(r) <=> (Len(t) = 2 * KW /\ IsHexText(t) /\ LowerHex(t) \in {HexOf(k) : k \in Scalars})
      /\ IsOk(r) => HexOf(r.key.k) = LowerHex(t)

(* C10, C11: public keys are taken exactly in the two forms that Format    *)
(* writes, and only points of the curve                                    *)
PubWritten == {FormatR([x |-> q[1], y |-> q[2]], c) : q \in Points, c \in BOOLEAN}
PubExact == Kind = "pub" =>
  LET r == ImportPubR(t, NetA)
  IN  /\ IsOk(r) <=> t \in PubWritten
      /\ IsOk(r) => /\ <<r.key.x, r.key.y>> \in Points
                    /\ \E c \in BOOLEAN : FormatR(r.key, c) = t

(* C13, C14: a phrase is accepted exactly when it is the phrase of some    *)
(* entropy, which it determines                                            *)
PhraseExact == Kind = "phrase" =>
  LET ok == PhraseOk(t, Words)
  IN  /\ ok => /\ Len(PhraseEntropy(t, Words)) \in EntropySizes
               /\ PhraseOf(PhraseEntropy(t, Words), Words) = t
      /\ (~ok /\ Len(Split(t, Space)) \in WordCounts) =>
            PhraseOf(PhraseEntropy(t, Words), Words) # t
      /\ IsOk(SeedR(t, <<>>, Words)) <=> ok
=============================================================================
