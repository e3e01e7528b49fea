------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* Texts are sequences of bytes (character codes).  Hexadecimal, Base58    *)
(* with the Bitcoin alphabet, and Base58Check.                             *)
(***************************************************************************)
EXTENDS BigNat, Hashes

(* --- hexadecimal ------------------------------------------------------- *)
IsHexChar(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
LowHex(d) == IF d < 10 THEN 48 + d ELSE 87 + d

IsHexText(t) == \A i \in DOMAIN t : IsHexChar(t[i])
HexEncode(b) == [i \in 1..(2 * Len(b)) |->
                   LowHex(IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16)]
HexDecode(t) == [i \in 1..(Len(t) \div 2) |-> HexVal(t[2*i - 1]) * 16 + HexVal(t[2*i])]
LowerHex(t) == [i \in DOMAIN t |-> LowHex(HexVal(t[i]))]

(* --- Base58 ------------------------------------------------------------ *)
(* 123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz *)
Alphabet == [i \in 1..58 |-> IF i <= 9 THEN 48 + i                     \* 1-9
                             ELSE IF i <= 17 THEN 55 + i               \* A-H
                             ELSE IF i <= 22 THEN 56 + i               \* J-N
                             ELSE IF i <= 33 THEN 57 + i               \* P-Z
                             ELSE IF i <= 44 THEN 63 + i               \* a-k
                             ELSE 64 + i]                              \* m-z
B58Chars == {Alphabet[i] : i \in 1..58}
B58Val == [c \in B58Chars |-> (CHOOSE i \in 1..58 : Alphabet[i] = c) - 1]

LeadCount(s, x) == IF \A i \in DOMAIN s : s[i] = x THEN Len(s)
                   ELSE (CHOOSE i \in DOMAIN s : s[i] # x /\ \A j \in 1..(i-1) : s[j] = x) - 1

RECURSIVE B58Digits(_)
B58Digits(n) == IF n = <<>> THEN <<>>
                ELSE LET d == DivMod(n, <<58>>)
                     IN  Append(B58Digits(d[1]), Alphabet[(IF d[2] = <<>> THEN 0 ELSE d[2][1]) + 1])
Base58EncodeD(b) == [i \in 1..LeadCount(b, 0) |-> 49] \o B58Digits(Strip(b))

IsB58Text(t) == \A i \in DOMAIN t : t[i] \in B58Chars
Base58DecodeD(t) ==
  LET acc(n, c) == Add(Mul(n, <<58>>), Nat2Big(B58Val[c]))
  IN  Zeros(LeadCount(t, 49)) \o FoldLeft(acc, <<>>, t)

Base58Encode(b) == Base58EncodeD(b)
Base58Decode(t) == Base58DecodeD(t)

(* --- Base58Check, with a checksum of ck bytes (Bitcoin: 4) --------------- *)
Checksum(b, ck) == SubSeq(Sha256(Sha256(b)), 1, ck)
B58CheckEncode(b, ck) == Base58Encode(b \o Checksum(b, ck))
B58CheckOk(t, ck) ==
  /\ t # <<>> /\ IsB58Text(t)
  /\ LET b == Base58Decode(t) n == Len(b)
     IN  n >= ck /\ SubSeq(b, n - ck + 1, n) = Checksum(SubSeq(b, 1, n - ck), ck)
B58CheckPayload(t, ck) == LET b == Base58Decode(t) IN SubSeq(b, 1, Len(b) - ck)
=============================================================================
