------------------------------ MODULE SelfTest ------------------------------
(***************************************************************************)
(* The specification's own footing.  Each state is a test: the java        *)
(* evaluation of an operator equals its definition in TLA+ (names ending   *)
(* in D), on arguments of all sizes up to those in use, or a published     *)
(* value comes out.                                                        *)
(***************************************************************************)
EXTENDS Sweep

VARIABLES kind, i, result
A(j) == Strip(RndBytes("st", j, j % 33))
C(j) == Strip(RndBytes("su", j, (j * 7) % 33))
M1(j) == LET m == Strip(RndBytes("sm", j, 1 + (j % 32))) IN IF m \in {<<>>, <<1>>} THEN <<2>> ELSE m

Arith(j) ==
  LET a == A(j) b == C(j) m == M1(j) x == ModD(a, m) y == ModD(b, m)
  IN  /\ Strip(RndBytes("sz", j, 3)) = StripD(RndBytes("sz", j, 3)) /\ Strip(Zeros(3) \o a) = StripD(Zeros(3) \o a)
      /\ Pad(a, 32) = PadD(a, 32) /\ Pad(a, 5) = PadD(a, 5)
      /\ Nat2Big(j * 104729) = NatD(j * 104729)
      /\ Cmp(a, b) = CmpD(a, b) /\ Cmp(b, a) = CmpD(b, a) /\ Cmp(a, a) = 0
      /\ Add(a, b) = AddD(a, b)
      /\ (CmpD(a, b) >= 0 => Sub(a, b) = SubD(a, b))
      /\ Mul(a, b) = MulD(a, b)
      /\ DivMod(a, m) = DivModD(a, m) /\ Mod(a, m) = ModD(a, m)
      /\ Bit(a, j % 256) = BitD(a, j % 256) /\ BitLen(a) = BitLenD(a)
      /\ ModAdd(x, y, m) = ModAddD(x, y, m) /\ ModSub(x, y, m) = ModSubD(x, y, m)
      /\ ModMul(x, y, m) = ModMulD(x, y, m) /\ ModNeg(x, m) = ModNegD(x, m)
      /\ (* division does what it says *) Add(Mul(DivMod(a, m)[1], m), DivMod(a, m)[2]) = a

M61 == <<31, 255, 255, 255, 255, 255, 255, 255>>       \* 2^61 - 1, a prime
FieldOps(j) ==
  LET a == RndScalar("sf", j) e == Strip(RndBytes("sg", j, 2)) b == Mod(a, M61)
  IN  /\ ModExp(b, e, M61) = ModExpD(b, e, M61)
      /\ ModInv(b, M61) = ModInvD(b, M61)
      /\ ModMul(a, ModInv(a, N), N) = One /\ ModMul(a, ModInv(a, P), P) = One

Points(j) ==
  LET p == EcMul(RndScalar("sp", j), G, P) q == EcMul(RndScalar("sq", j), G, P) k == Strip(RndBytes("sk", j, 1 + (j % 2)))
  IN  /\ OnCurve(p, B, P) /\ OnCurve(q, B, P)
      /\ EcAdd(p, q, P) = EcAddD(p, q, P) /\ EcAdd(p, p, P) = EcAddD(p, p, P)
      /\ EcAdd(p, EcNeg(p, P), P) = Infinity /\ EcAddD(p, EcNeg(p, P), P) = Infinity
      /\ EcAdd(p, Infinity, P) = p /\ EcAdd(Infinity, p, P) = p
      /\ EcMul(k, p, P) = EcMulD(k, p, P)
      /\ EcMul(RndScalar("sr", j), p, P) = EcMulD(RndScalar("sr", j), p, P)
      /\ EcMul(N, p, P) = Infinity /\ EcMul(Sub(N, One), p, P) = EcNeg(p, P) /\ EcMul(<<>>, p, P) = Infinity
      /\ LiftX(p[1], Odd(p[2]), B, P) = p /\ HasX(p[1], B, P)

Hash(j) ==
  LET m == RndBytes("sh", j, (j * 9) % 140)
  IN  /\ Sha256(m) = Sha256D(m) /\ Sha512(m) = Sha512D(m) /\ Ripemd160(m) = Ripemd160D(m)
      /\ HmacSha512(m, Chars("x")) = HmacSha512D(m, Chars("x")) /\ HmacSha512(Chars("k"), m) = HmacSha512D(Chars("k"), m)
      /\ (j <= 2 => Pbkdf2(m, Chars("salt"), 3) = Pbkdf2D(m, Chars("salt"), 3))

Texts(j) ==
  LET b == Zeros(j % 4) \o RndBytes("sx", j, (j * 5) % 40) t == Base58Encode(b)
      ph == PhraseOf(RndBytes("sy", j, Sizes[(j % 5) + 1]), WordList("English"))
      u == <<32>> \o ph \o <<32, 32>>
  IN  /\ t = Base58EncodeD(b) /\ Base58Decode(t) = b /\ Base58DecodeD(t) = b
      /\ Split(ph, Space) = SplitD(ph, Space) /\ Split(u, Space) = SplitD(u, Space) /\ Split(<<>>, Space) = <<<<>>>>
      /\ LET w == WordList("English")[((j * 97) % 2048) + 1]
         IN  IndexOf(WordList("English"), w) = IndexOfD(WordList("English"), w) /\ IndexOf(WordList("English"), Tail(w)) = IndexOfD(WordList("English"), Tail(w))
      /\ HexDecode(HexEncode(b)) = b /\ Unhex(Hex(b)) = b
      /\ PhraseOk(ph, WordList("English"))
      /\ PhraseOf(PhraseEntropy(ph, WordList("English")), WordList("English")) = ph

(* published values *)
Published ==
  << Sha256(Chars("abc")) = Unhex("ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"),
     Ripemd160(Chars("abc")) = Unhex("8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"),
     Sha512(Chars("abc")) = Unhex("ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f"),
     (* https://en.bitcoin.it/wiki/Wallet_import_format *)
     WifOf(Unhex("0c28fca386c7a227600b2fe50b7cae11ec86d3bf1fbe471be89827e19d72aa1d"), NetV(Main)) = Chars("5HueCGU8rMjxEXxiPuD5BDku4MkFqeZyd4dZ1jvhTVqvbTLvyTJ"),
     (* key 1 *)
     FormatR(PubOf(One, NetV(Main)), TRUE) = Chars("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
     AddressR(PubOf(One, NetV(Main)), FALSE) = Chars("1EHNa6Q4Jz2uvNExL497mE43ikXhwF6kZm"),
     AddressR(PubOf(One, NetV(Main)), TRUE) = Chars("1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH"),
     AddressR(PubOf(One, NetV(TestN)), TRUE) = Chars("mrCDrCybB6J1vRfbwM5hemdJz73FwDBC8r"),
     (* BIP39 test vectors *)
     PhraseOf(Fill(127, 16), WordList("English")) = Chars("legal winner thank year wave sausage worth useful legal winner thank yellow"),
     PhraseOf(Fill(255, 16), WordList("English")) = Chars("zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo wrong"),
     SeedR(Chars("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about"), Chars("TREZOR"), WordList("English"))
       = OkText(Unhex("c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04")) >>

(* the published files of the word lists, a word on each line: SHA-256 *)
Files == << <<"ChineseSimplified", "5c5942792bd8340cb8b27cd592f1015edf56a8c5b26276ee18a482428e7c5726">>,
            <<"ChineseTraditional", "417b26b3d8500a4ae3d59717d7011952db6fc2fb84b807f3f94ac734e89c1b5f">>,
            <<"Czech", "7e80e161c3e93d9554c2efb78d4e3cebf8fc727e9c52e03b83b94406bdcc95fc">>,
            <<"English", "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda">>,
            <<"French", "ebc3959ab7801a1df6bac4fa7d970652f1df76b683cd2f4003c941c63d517e59">>,
            <<"Italian", "d392c49fdb700a24cd1fceb237c1f65dcc128f6b34a8aacb58b59384b5c648c2">>,
            <<"Japanese", "2eed0aef492291e061633d7ad8117f1a2b03eb80a29d0e4e3117ac2528d05ffd">>,
            <<"Korean", "9e95f86c167de88f450f0aaf89e87f6624a57f973c67b516e338e8e8b8897f60">>,
            <<"Spanish", "46846a5a0139d1e3cb77293e521c2865f7bcdb82c44e8d0a06a2cd0ecba48c0b">> >>
ListFileOk(j) == Sha256(FlattenSeq([w \in 1..2048 |-> Append(WordList(Files[j][1])[w], 10)])) = Unhex(Files[j][2])

(* blocks of Sweep.tla: j-th kind, a few items *)
SweepKinds == <<"priv", "arith", "point", "add", "pub", "seed">>
DrawnTest(j) == LET k == <<"gen", "phrase">>[(j % 2) + 1] from == 50 * j
                     args == [q \in 1..50 |-> IF k = "gen" THEN SubSeq(Rnd("st-gen", from + q), 1, 32 - (q % 4)) ELSE SubSeq(Rnd("st-phrase", from + q), 1, IF q % 10 = 0 THEN 17 ELSE Sizes[(((from + q - 1) \div 9) % 5) + 1])]
                IN  DrawnSum(k, SweepWords, from, args) = DrawnSumD(k, SweepWords, from, args)
SweepTest(j) == IF j > 24 THEN DrawnTest(j) ELSE LET k == SweepKinds[((j - 1) % 6) + 1] from == 40 * (j \div 6) IN BlockSum(k, Seed, SweepWords, from, 40) = BlockSumD(k, Seed, SweepWords, from, 40)

Kinds == {"sweep", "lists", "arith", "field", "points", "hash", "texts", "published"}
Count(k) == CASE k = "sweep" -> 28 [] k = "arith" -> 80 [] k = "field" -> 8 [] k = "points" -> 6 [] k = "hash" -> 20 [] k = "texts" -> 20 [] k = "lists" -> Len(Files) [] OTHER -> Len(Published)
Test(k, j) == CASE k = "sweep" -> SweepTest(j) [] k = "arith" -> Arith(j) [] k = "field" -> FieldOps(j) [] k = "points" -> Points(j) [] k = "hash" -> Hash(j) [] k = "texts" -> Texts(j) [] k = "lists" -> ListFileOk(j) [] OTHER -> Published[j]
SInit == Init /\ blk = 0 /\ verdict = "" /\ kind \in Kinds /\ i \in 1..Count(kind) /\ result = "untested"
SNext == result = "untested" /\ result' = (IF Test(kind, i) THEN "good" ELSE "bad") /\ UNCHANGED <<priv, pub, out, blk, verdict, kind, i>>
SSpec == SInit /\ [][SNext]_<<priv, pub, out, blk, verdict, kind, i, result>>
Passes == result # "bad"
=============================================================================
