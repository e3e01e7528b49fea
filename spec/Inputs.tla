------------------------------- MODULE Inputs -------------------------------
(***************************************************************************)
(* Arguments for generated histories.  The classes follow the guards of    *)
(* the operators of BtcKeys: both sides of every boundary, every length of *)
(* leading zeros, related values (equal parts, sums and products with      *)
(* unusual shapes), and every kind of edit of a valid text.  Pseudo-random *)
(* values come from SHA-256 of the seed, a tag and a number, so that a     *)
(* seed gives the same histories again.                                    *)
(***************************************************************************)
EXTENDS BtcKeys, Secp256k1, Lists

Seed == IOEnv.VERIF_SEED
Scale == atoi(IOEnv.VERIF_SCALE)           \* 1 for quick
Corpus == JsonDeserialize(IOEnv.VERIF_DATA \o "/corpus.json")
More == JsonDeserialize(IOEnv.VERIF_DATA \o "/more.json")

(* --- randomness ---------------------------------------------------------- *)
Rnd(tag, i) == Sha256(Chars(Seed \o "|" \o tag \o "|" \o ToString(i)))
RndInt(tag, i, n) == LET r == Rnd(tag, i)                         \* 0 .. n-1, n < 2^22
                     IN  ((r[1] * 65536 + r[2] * 256 + r[3]) % 4194304) % n
RndBytes(tag, i, n) == IF n <= 32 THEN SubSeq(Rnd(tag, i), 1, n)
                       ELSE FlattenSeq([j \in 1..(n \div 32 + 1) |-> Rnd(tag \o "+", i * 1000 + j)])
RndScalar(tag, i) == LET k == Mod(Strip(Rnd(tag, i)), N) IN IF k = <<>> THEN <<1>> ELSE k
Pick(s, tag, i) == s[RndInt(tag, i, Len(s)) + 1]

(* --- numbers ------------------------------------------------------------- *)
One == <<1>>
Two == <<2>>
PowTwo(i) == <<Pow2(i % 8)>> \o Zeros(i \div 8)
Minus(a) == ModNeg(a, N)
HalfN == DivMod(N, Two)[1]
(* random scalar of exactly b bytes *)
RndOfLen(tag, i, b) == LET r == SubSeq(Rnd(tag, i), 1, b)
                       IN  IF r[1] = 0 THEN <<1>> \o Tail(r)
                           ELSE IF b = 32 /\ r[1] = 255 THEN <<254>> \o Tail(r) ELSE r

Specials ==
  << One, Two, <<3>>, <<4>>, <<5>>, <<7>>, <<15>>, <<16>>, <<17>>, <<127>>, <<128>>, <<255>>, <<1, 0>>, <<1, 1>>,
     Minus(One), Minus(Two), Minus(<<3>>), Minus(<<1, 0>>),
     HalfN, Add(HalfN, One), Sub(HalfN, One), Add(HalfN, Two),
     Strip([i \in 1..32 |-> 85]), Strip([i \in 1..32 |-> 170]),
     Strip([i \in 1..32 |-> IF i = 1 THEN 127 ELSE 255]), Strip([i \in 1..32 |-> IF i <= 16 THEN 0 ELSE 255]),
     Strip([i \in 1..32 |-> IF i > 16 THEN 0 ELSE 254]), Strip([i \in 1..32 |-> IF i = 1 \/ i = 32 THEN 1 ELSE 0]),
     Unhex("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72"),   \* cube roots of 1
     Unhex("ac9c52b33fa3cf1f5ad9e3fd77ed9ba4a880b9fc8ec739c2e0cfc810b51283ce"),
     Unhex("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd73"), Unhex("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd71"),
     DivMod(N, <<3>>)[1], Add(DivMod(N, <<3>>)[1], One), ModInv(Two, N), ModInv(<<3>>, N), Sub(PowTwo(128), One), Add(PowTwo(128), One), Mod(Strip(P), N), Sub(PowTwo(255), <<19>>),
     Mod(PowTwo(256), N), ModMul(PowTwo(128), PowTwo(128), N), ModInv(Mod(PowTwo(256), N), N), ModMul(Mod(PowTwo(256), N), Mod(PowTwo(256), N), N), Minus(Mod(PowTwo(256), N)),    \* 1 and R in the form of Montgomery
     Sub(PowTwo(256), P), Minus(Sub(PowTwo(256), P)), Sub(P, N),
     Unhex("3086d221a7d46bcde86c90e49284eb15"), Unhex("e4437ed6010e88286f547fa90abfe4c3"), Unhex("0114ca50f7a8e2f3f657c1108d9d44cfd8") >>    \* the short vectors of the endomorphism
PowersOfTwo == [i \in 1..256 |-> PowTwo(i - 1)]
AllOnes == [i \in 1..255 |-> Sub(PowTwo(i), One)]
NearN == [i \in 1..255 |-> Minus(PowTwo(i - 1))]
ByteLens(tag) == [i \in 1..32 |-> RndOfLen(tag, i, i)]
TrailingZeros(tag) == [i \in 1..31 |-> RndOfLen(tag, i, 32 - i) \o Zeros(i)]
(* a zero byte at each position *)
InnerZero(tag) == [i \in 1..31 |-> LET r == RndOfLen(tag, i, 32) IN [j \in 1..32 |-> IF j = i + 1 THEN 0 ELSE r[j]]]
Nibbles(tag) == [i \in 1..15 |-> LET r == RndOfLen(tag, i, 32) IN [r EXCEPT ![1] = i]]   \* 63-digit numbers
CorpusScalars == [i \in DOMAIN Corpus.scalars |-> Strip(Unhex(Corpus.scalars[i].k))] \o [i \in DOMAIN More.extra |-> Strip(Unhex(More.extra[i]))]
(* entropies whose seed begins or ends with zeros *)
SeedEntropies == [i \in DOMAIN More.seeds |-> Unhex(More.seeds[i])]
(* pairs of scalars whose public keys or hashes agree in 32 bits *)
PairScalars == [i \in DOMAIN More.pairs |-> <<Strip(Unhex(More.pairs[i][1])), Strip(Unhex(More.pairs[i][2]))>>]
(* points with a small y: y + p still fits in 32 bytes *)
SmallY == [i \in DOMAIN More.smally |-> [x |-> Strip(Unhex(More.smally[i].x)), y |-> Strip(Unhex(More.smally[i].y))]]
RndScalars(tag, n) == [i \in 1..n |-> RndScalar(tag, i)]

EveryNth(s, n, off) == [i \in 1..((Len(s) - off - 1) \div n + 1) |-> s[(i - 1) * n + off + 1]]

(* most of what matters, and some of every family *)
ScalarPool(tag) ==
  LET o == RndInt(tag, 0, 4)
  IN  Specials \o CorpusScalars \o ByteLens(tag \o "len") \o TrailingZeros(tag \o "trail")
      \o InnerZero(tag \o "inner") \o Nibbles(tag \o "nib")
      \o (IF Scale > 1 THEN PowersOfTwo \o AllOnes \o NearN
          ELSE EveryNth(PowersOfTwo, 4, o) \o EveryNth(AllOnes, 4, o) \o EveryNth(NearN, 4, o))
      \o RndScalars(tag \o "rnd", 40 * Scale)

(* numbers made of 64-bit pieces that are all zeros, all ones, a single bit or random *)
LimbOf(tag, i, kind) == CASE kind = 0 -> Zeros(8) [] kind = 1 -> [j \in 1..8 |-> 255] [] kind = 2 -> <<128>> \o Zeros(7)
                          [] kind = 3 -> Zeros(7) \o <<1>> [] OTHER -> SubSeq(Rnd(tag, i), 1, 8)
LimbScalar(tag, i) == LET r == Rnd(tag \o "kinds", i) b == FlattenSeq([j \in 1..4 |-> LimbOf(tag, i * 4 + j, r[j] % 5)])
                      IN  LET k == Mod(Strip(b), N) IN IF k = <<>> THEN <<1>> ELSE k

(* --- networks -------------------------------------------------------------- *)
NetR(id, pk, ph) == [id |-> id, pk |-> Hex(Chars(pk)), ph |-> Hex(Chars(ph))]
Main == NetR("main", "80", "00")
TestN == NetR("test", "EF", "6F")
Nets == << Main, TestN, NetR("copy", "80", "00"), NetR("ltc", "B0", "30"), NetR("mix1", "80", "6F"),
           NetR("mix2", "EF", "00"), NetR("zero", "00", "FF"), NetR("ff", "FF", "00"), NetR("low", "cc", "4c"),
           NetR("aB", "aB", "Cd"), NetR("test2", "EF", "6F") >>
NetV(n) == [pk |-> Unhex(n.pk), ph |-> Unhex(n.ph)]
HexDigits == Chars("0123456789abcdef")
ByteText(b) == <<HexDigits[b \div 16 + 1], HexDigits[(b % 16) + 1]>>
ByteNet(b, c) == [id |-> "n" \o ToString(b) \o "-" \o ToString(c), pk |-> Hex(ByteText(b)), ph |-> Hex(ByteText(c))]

(* --- texts ----------------------------------------------------------------- *)
UpperC(c) == IF c \in 97..122 THEN c - 32 ELSE c
LowerC(c) == IF c \in 65..90 THEN c + 32 ELSE c
Upper(t) == [i \in DOMAIN t |-> UpperC(t[i])]
Lower(t) == [i \in DOMAIN t |-> LowerC(t[i])]
MixCase(t) == [i \in DOMAIN t |-> IF i % 2 = 1 THEN UpperC(t[i]) ELSE t[i]]
Recase(t, i) == CASE i % 3 = 0 -> t [] i % 3 = 1 -> Upper(t) [] OTHER -> MixCase(t)
CaseName(i) == CASE i % 3 = 0 -> "as" [] i % 3 = 1 -> "up" [] OTHER -> "mix"

Subst(t, i, c) == [t EXCEPT ![i] = c]
Del(t, i) == SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
Ins(t, i, c) == SubSeq(t, 1, i - 1) \o <<c>> \o SubSeq(t, i, Len(t))        \* before position i
Swap(t, i) == [t EXCEPT ![i] = t[i + 1], ![i + 1] = t[i]]
Take(t, n) == SubSeq(t, 1, n)
Repeat(s, n) == FlattenSeq([i \in 1..n |-> s])
Fill(c, n) == [i \in 1..n |-> c]

WhiteSpace == << <<32>>, <<9>>, <<10>>, <<13, 10>>, <<0>>, <<194, 160>>, <<226, 128, 139>>, <<239, 187, 191>> >>

(* texts of any kind: nothing a call may choke on *)
Junk == << <<>>, <<32>>, <<0>>, <<10>>, <<255>>, <<195>>, <<237, 160, 128>>, <<48>>, <<48, 48>>, <<49>>, Fill(49, 3), Fill(49, 4),
           Fill(49, 5), Fill(49, 8), Fill(49, 51), Fill(49, 200), Fill(122, 1), Fill(122, 2), Fill(122, 3), Fill(122, 5), Fill(122, 6), Fill(122, 51),
           Fill(122, 52), Fill(122, 53), Fill(48, 64), Fill(48, 66), Fill(48, 130), Fill(102, 64), Fill(102, 66), Fill(102, 130),
           Fill(48, 63), Fill(48, 65), Fill(48, 67), Fill(48, 129), Fill(48, 131), Fill(48, 128),
           Fill(32, 11), Fill(32, 12), Fill(32, 64), Fill(97, 64), Fill(48, 2000), Fill(65, 3000), Fill(255, 64), Fill(0, 64),
           Chars("0x"), Chars("-1"), Chars("+1"), Chars("1e3"), Chars("nil"), Chars("04"), Chars("02"), Chars("03"), Chars("4"), Chars("2"),
           Chars("040"), Chars("020"), Chars("0O1Il"), <<37, 115, 37, 110, 37, 100>>, Chars("{}"), Chars("abandon"), Chars(" abandon"),
           Chars("5"), Chars("5H"), Chars("3QJmnh"), Chars("1Wh4bh"), Chars("hello world"),
           <<239, 188, 144>> , <<240, 159, 152, 128>>, Repeat(<<239, 188, 145>>, 64), Repeat(<<195, 169>>, 32), Repeat(<<206, 188>>, 65) >>

(* --- the shapes of private key texts --------------------------------------- *)
BadHexTexts(k) ==
  LET t == HexOf(k) z == Fill(48, 64)
      replace == << 103, 71, 47, 58, 64, 96, 32, 0, 120, 95, 128, 255, 43, 45 >>
  IN  [j \in 1..64 |-> Take(t, j - 1)]
      \o [j \in 1..64 |-> Subst(t, j, replace[(j % Len(replace)) + 1])]
      \o << z, HexOf(N), Upper(HexOf(N)), HexOf(Add(N, One)), HexOf(Add(N, Two)), HexOf(Add(N, <<255, 255, 255, 255>>)), HexOf(Sub(PowTwo(256), One)),
            HexOf(Sub(PowTwo(256), Two)), HexOf(P), HexOf(Add(N, PowTwo(128))), Fill(70, 64),
            HexOf(Add(Mul(Two, N), One)), HexOf(Add(N, k)), HexOf(PowTwo(256)),
            <<48>> \o t, <<48, 48>> \o t, t \o <<48>>, t \o <<48, 48>>, t \o <<48, 49>>, t \o t, Chars("80") \o t, t \o Chars("01"),
            Chars("0x") \o t, Chars("0x") \o Take(t, 62), Chars("0X") \o Take(t, 62), <<43>> \o t, <<45>> \o t, <<43>> \o Take(t, 63), <<45>> \o Take(t, 63),
            <<45, 48>> \o Take(t, 62), <<43>> \o Fill(48, 62) \o <<49>>, <<45>> \o Fill(48, 62) \o <<49>>,
            Fill(48, 63) \o <<50, 48>>, Fill(48, 62) \o <<49>>, <<49>>, <<48, 49>>, Fill(48, 1000) \o t, Repeat(t, 50),
            t \o HexOf(N), z \o t, t \o z, WifOf(k, NetV(Main)) >>
      \o [j \in DOMAIN WhiteSpace |-> WhiteSpace[j] \o t] \o [j \in DOMAIN WhiteSpace |-> t \o WhiteSpace[j]]
      \o [j \in DOMAIN WhiteSpace |-> LET s == WhiteSpace[j] IN s \o Take(t, 64 - Len(s))]
      \o [j \in DOMAIN WhiteSpace |-> LET s == WhiteSpace[j] IN Take(t, 64 - Len(s)) \o s]

(* Base58Check texts of payloads *)
B58C(p) == B58CheckEncode(p, CK)
WithBadChecksum(p, i, m) ==      \* byte i of the checksum changed by m
  LET c == Checksum(p, CK) IN Base58Encode(p \o [c EXCEPT ![i] = (@ + m) % 256])

XorByte(b, m) == IF (b \div m) % 2 = 1 THEN b - m ELSE b + m            \* m a power of two
ChecksumFlips(p) ==      \* each bit of the checksum
  LET c == Checksum(p, CK) IN [i \in 1..32 |-> Base58Encode(p \o [c EXCEPT ![(i - 1) \div 8 + 1] = XorByte(@, Pow2((i - 1) % 8))])]
PayloadFlips(p) == [i \in 1..(8 * Len(p)) |-> Base58Encode([p EXCEPT ![(i - 1) \div 8 + 1] = XorByte(@, Pow2((i - 1) % 8))] \o Checksum(p, CK))]
TwoFlips(p, tag) ==      \* the same change at two places of the checksum
  LET c == Checksum(p, CK) IN FlattenSeq([i \in 1..3 |-> [j \in 1..(4 - i) |-> LET m == Pow2(RndInt(tag, 10 * i + j, 8)) IN Base58Encode(p \o [c EXCEPT ![i] = XorByte(@, m), ![i + j] = XorByte(@, m)])]])

OddPayloads(k, net) ==
  LET b == PrivByte(net) f == Pad(k, 32)
  IN  << <<>>, b, b \o <<1>>, <<1>>, <<0>>, <<0, 0>>, f, f \o <<1>>, b \o f \o <<0>>, b \o f \o <<2>>, b \o f \o <<255>>, b \o f \o <<1, 1>>,
         b \o f \o <<1, 0>>, b \o f \o <<0, 1>>, b \o Take(f, 31), b \o Take(f, 31) \o <<1>>, b \o Take(f, 30) \o <<1>>, b \o <<0>> \o f, b \o <<0>> \o f \o <<1>>,
         b \o b \o f, b \o Zeros(32), b \o Zeros(32) \o <<1>>, b \o Zeros(31) \o <<1>>, b \o Zeros(31) \o <<1, 1>>, b \o Zeros(33), b \o N, b \o N \o <<1>>, b \o Add(N, One), b \o Add(N, One) \o <<1>>,
         b \o Fill(255, 32), b \o Fill(255, 32) \o <<1>>, b \o P, b \o Minus(One), b \o Minus(One) \o <<1>>, b \o Fill(255, 33), b \o Zeros(64), b \o f \o f, b \o Take(f, 20), <<0>> \o Take(f, 20), <<111>> \o Take(f, 20), <<5>> \o Take(f, 20),
         <<(b[1] + 1) % 256>> \o f, <<(b[1] + 1) % 256>> \o f \o <<1>>, <<(b[1] + 128) % 256>> \o f, <<0>> \o b \o f, <<0>> \o b \o f \o <<1>>, <<4>> \o f \o f, Zeros(33), Zeros(34), Zeros(10),
         b \o f \o Zeros(100), Fill(128, 33), Fill(128, 34), Fill(1, 33) >>
      \o [j \in 1..40 |-> b \o RndBytes("odd", j, j - 1)]
OddBody(k) == [j \in 1..8 |-> LET f == Pad(k, 32) IN
                 CASE j = 1 -> f [] j = 2 -> f \o <<1>> [] j = 3 -> f \o <<0>> [] j = 4 -> Take(f, 31)
                   [] j = 5 -> Zeros(32) [] j = 6 -> N [] j = 7 -> f \o <<1, 1>> [] OTHER -> <<>>]

B58Others == << 48, 79, 73, 108, 32, 45, 95, 43, 0, 127, 128, 255, 10, 33 >>      \* not in the alphabet
WifEdits(t, o) ==      \* one edit at each position, of a kind that depends on o
  LET n == Len(t)
      otherChar(i, d) == Alphabet[((B58Val[t[i]] + d) % 58) + 1]
  IN  [i \in 1..n |-> Subst(t, i, otherChar(i, 1 + ((o + i) % 57)))]
      \o [i \in 1..n |-> Subst(t, i, otherChar(i, 1))]
      \o [i \in 1..n |-> Subst(t, i, B58Others[((o + i) % Len(B58Others)) + 1])]
      \o [i \in 1..n |-> Subst(t, i, IF t[i] \in 65..90 THEN t[i] + 32 ELSE UpperC(t[i]))]
      \o [i \in 1..n |-> Del(t, i)]
      \o [i \in 1..n |-> Ins(t, i, Alphabet[((o + i) % 58) + 1])]
      \o [i \in 1..(n - 1) |-> Swap(t, i)]
      \o [i \in 1..n |-> Take(t, i - 1)]
      \o [i \in DOMAIN WhiteSpace |-> WhiteSpace[i] \o t] \o [i \in DOMAIN WhiteSpace |-> t \o WhiteSpace[i]]
      \o << t \o t, <<49>> \o t, <<49, 49>> \o t, t \o <<49>>, Upper(t), Lower(t), [i \in 1..n |-> t[n + 1 - i]] >>

Beta == Unhex("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee")      \* cube root of 1 mod p
(* --- public key texts -------------------------------------------------------- *)
BadPubList(k, o) ==
  LET p == PubOf(k, NetV(Main))
      q == PubOf(ModAdd(k, One, N), NetV(Main))
      X(v) == HexEncode(Pad(v, 32))
      u == FormatR(p, FALSE)  c == FormatR(p, TRUE)
      badx == ModAdd(p.x, <<CHOOSE j \in 1..60 : ~HasX(ModAdd(p.x, <<j>>, P), B, P)>>, P)
      replace == << 103, 71, 47, 58, 64, 96, 32, 0, 120, 95, 128, 255, 43, 45 >>
  IN  [j \in 1..256 |-> ByteText(j - 1) \o X(p.x)]
      \o [j \in 1..256 |-> ByteText(j - 1) \o X(p.x) \o X(p.y)]
      \o [j \in 1..66 |-> Subst(c, j, replace[((j + o) % Len(replace)) + 1])]
      \o [j \in 1..65 |-> Subst(u, 2 * j, replace[((j + o) % Len(replace)) + 1])]
      \o [j \in 1..65 |-> Take(u, 2 * j - 1 - (o % 2))]
      \o [j \in 1..66 |-> Take(c, j - 1)]
      \o [j \in 1..64 |-> Subst(u, 66 + j, LowHex((HexVal(u[66 + j]) + 1) % 16))]      \* y off the curve
      \o [j \in 1..16 |-> Subst(u, 2 + 4 * j, LowHex((HexVal(u[2 + 4 * j]) + 1) % 16))]
      \o << Chars("04") \o X(p.x) \o X(q.y), Chars("04") \o X(p.y) \o X(p.x), Chars("04") \o X(p.x) \o X(ModNeg(p.y, P)),
            Chars("04") \o X(<<>>) \o X(<<>>), Chars("04") \o X(P) \o X(P), Chars("04") \o X(Fill(255, 32)) \o X(Fill(255, 32)),
            Chars("04") \o X(<<>>) \o X(<<7>>), Chars("02") \o X(<<>>), Chars("03") \o X(<<>>), Chars("02") \o X(P), Chars("03") \o X(P),
            Chars("02") \o X(badx), Chars("03") \o X(badx), Chars("02") \o X(Add(P, One)), Chars("03") \o X(Add(P, Two)), Chars("02") \o X(Fill(255, 32)),
            Chars("02") \o X(Add(P, <<3>>)), Chars("02") \o X(Add(P, <<4>>)), Chars("02") \o X(One), Chars("03") \o X(One), Chars("02") \o X(Two), Chars("02") \o X(<<5>>), Chars("03") \o X(<<5>>),
            Chars("04") \o X(Add(P, One)) \o X(LiftX(One, FALSE, B, P)[2]), Chars("04") \o X(One) \o X(LiftX(One, FALSE, B, P)[2]), Chars("04") \o X(One) \o X(LiftX(One, TRUE, B, P)[2]),
            (* points with a coordinate that still fits in 32 bytes when p is added *)
            Chars("02") \o X(Add(P, Two)), Chars("04") \o X(Add(P, Two)) \o X(LiftX(Two, TRUE, B, P)[2]),
            Chars("04") \o X(ModMul(p.x, Beta, P)) \o X(p.y), Chars("04") \o X(ModNeg(p.x, P)) \o X(p.y), Chars("04") \o X(p.x) \o X(p.x), Chars("04") \o X(p.y) \o X(p.y), Chars("04") \o X(G[1]) \o X(p.y), Chars("04") \o X(p.x) \o X(G[2]), Chars("04") \o X(G[1]) \o X(G[2]), Chars("04") \o X(G[1]) \o X(ModNeg(G[2], P)),
            Chars("04") \o X(p.x), Chars("02") \o X(p.x) \o X(p.y), Chars("03") \o X(p.x) \o X(p.y), Chars("0x") \o Take(c, 64), Chars("06") \o X(p.x) \o X(p.y), Chars("07") \o X(p.x) \o X(p.y),
            X(p.x), X(p.x) \o X(p.y), <<48>> \o c, <<48, 48>> \o c, c \o <<48>>, c \o <<48, 48>>, c \o <<48, 49>>, u \o <<48>>, u \o <<48, 48>>, u \o c, c \o c, Del(c, 1), Del(u, 1), Chars("00"), Chars("0"),
            Chars("02+") \o SubSeq(c, 4, 66), Chars("02-") \o SubSeq(c, 4, 66), Chars("04-") \o SubSeq(u, 4, 130), Take(u, 66) \o <<45>> \o SubSeq(u, 68, 130), Take(u, 66) \o <<43>> \o SubSeq(u, 68, 130),
            Chars("02 ") \o SubSeq(c, 4, 66), Chars("020x") \o SubSeq(c, 5, 66), Chars("02-0") \o Fill(48, 61) \o <<49>>, Chars("02-") \o Fill(48, 62) \o <<49>>, Chars("020_") \o SubSeq(c, 5, 66) >>
      \o FlattenSeq([j \in DOMAIN SmallY |-> LET s == SmallY[j] IN
            << Chars("04") \o X(s.x) \o X(s.y), Chars("04") \o X(s.x) \o X(Add(P, s.y)), Chars("04") \o X(s.x) \o X(ModNeg(s.y, P)), Chars("02") \o X(s.x), Chars("03") \o X(s.x) >>])
      \o [j \in DOMAIN WhiteSpace |-> WhiteSpace[j] \o c] \o [j \in DOMAIN WhiteSpace |-> u \o WhiteSpace[j]]
      \o [j \in DOMAIN WhiteSpace |-> c \o WhiteSpace[j]]
      \o [j \in DOMAIN WhiteSpace |-> Take(c, 66 - Len(WhiteSpace[j])) \o WhiteSpace[j]]

(* --- phrases ------------------------------------------------------------------ *)
RndEntropy(tag, i, n) == RndBytes(tag, i, n)
EntropyShapes(tag, n) ==
  << Zeros(n), Fill(255, n), Fill(127, n), Fill(128, n), Zeros(n - 1) \o <<1>>, <<1>> \o Zeros(n - 1), <<128>> \o Zeros(n - 1),
     Zeros(1) \o RndBytes(tag, 1, n - 1), Zeros(2) \o RndBytes(tag, 2, n - 2), Zeros(3) \o RndBytes(tag, 3, n - 3), Zeros(n \div 2) \o RndBytes(tag, 4, n - n \div 2),
     <<1>> \o RndBytes(tag, 5, n - 1), <<15>> \o RndBytes(tag, 6, n - 1), <<16>> \o RndBytes(tag, 7, n - 1), RndBytes(tag, 8, n - 1) \o <<0>>, RndBytes(tag, 9, n) >>
CorpusEntropies(n) == LET all == Corpus.entropies IN
  [i \in DOMAIN SelectSeq(all, LAMBDA e : Len(Unhex(e)) = n) |-> Unhex(SelectSeq(all, LAMBDA e : Len(Unhex(e)) = n)[i])]
Sizes == <<16, 20, 24, 28, 32>>
WordsOf(t) == Split(t, Space)
Glue(ws) == Join(ws, <<Space>>)

(* passphrases; the second of a pair is its NFKD form *)
Plain(t) == [p |-> t, n |-> t]
Passphrases ==
  << Plain(<<>>), Plain(Chars("TREZOR")), Plain(<<32>>), Plain(Chars(" lead")), Plain(Chars("trail ")), Plain(Chars("two  spaces")), Plain(<<0>>), Plain(<<97, 0, 98>>),
     Plain(Fill(97, 111)), Plain(Fill(97, 112)), Plain(Fill(97, 119)), Plain(Fill(97, 120)), Plain(Fill(97, 127)), Plain(Fill(97, 128)), Plain(Fill(97, 129)), Plain(Fill(98, 300)), Plain(Fill(99, 1000)), Plain(Fill(100, 4097)), Plain(Fill(101, 66000)),
     Plain(Chars("mnemonic")), Plain(Chars("UPPER lower")), Plain(<<37, 115, 37, 100, 37, 118>>), Plain(<<9>>), Plain(<<10>>),
     Plain(<<101, 204, 129>>), Plain(<<227, 129, 139, 227, 130, 153>>), Plain(<<255, 254>>), Plain(<<195>>) >>
Composed == [i \in DOMAIN Corpus.composed |-> [p |-> Unhex(Corpus.composed[i].p), n |-> Unhex(Corpus.composed[i].n)]]
=============================================================================
