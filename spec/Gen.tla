-------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Writes the histories of the suites named by VERIF_SUITES to VERIF_OPS.  *)
(* A history is a sequence of calls with concrete arguments (Inputs.tla),  *)
(* to be performed by the driver and checked by Trace.tla.  Handles are    *)
(* small numbers; tr stands for a text made from a key that is held (its   *)
(* WIF, its hex, ...), which the driver reads off the real key.            *)
(***************************************************************************)
EXTENDS Inputs

H(id, ops) == [id |-> id, solo |-> FALSE, full |-> FALSE, ops |-> ops]

Solo(h) == [h EXCEPT !.solo = TRUE]

(* --- operations ------------------------------------------------------------- *)
OCheck(t)         == [op |-> "CheckWif", t |-> Hex(t)]
OWif(h, t, n)     == [op |-> "ImportWif", h |-> h, t |-> Hex(t), n |-> n]
OHex(h, t, n)     == [op |-> "ImportHex", h |-> h, t |-> Hex(t), n |-> n]
OWifOf(h, g, n)   == [op |-> "ImportWif", h |-> h, tr |-> [f |-> "wif", h |-> g], n |-> n]
OHexOf(h, g, n, i) == [op |-> "ImportHex", h |-> h, tr |-> [f |-> "hex", h |-> g, case |-> CaseName(i)], n |-> n]
OGen(h, n)        == [op |-> "Gen", h |-> h, n |-> n]
OAdd(h, a, b)     == [op |-> "AddPriv", h |-> h, a |-> a, b |-> b]
OMul(h, a, b)     == [op |-> "MulPriv", h |-> h, a |-> a, b |-> b]
OPub(h, a)        == [op |-> "GetPub", h |-> h, a |-> a]
OImpPub(h, t, n)  == [op |-> "ImportPub", h |-> h, t |-> Hex(t), n |-> n]
OPubOf(h, g, c, n, i) == [op |-> "ImportPub", h |-> h, tr |-> [f |-> IF c THEN "fmtc" ELSE "fmtu", h |-> g, case |-> CaseName(i)], n |-> n]
OFormat(a, c)     == [op |-> "Format", a |-> a, c |-> c]
OAddr(a, c)       == [op |-> "Addr", a |-> a, c |-> c]
OAddPub(h, a, b, c) == [op |-> "AddPub", h |-> h, a |-> a, b |-> b, c |-> c]
OHomo(a, b, s, ps, sp) == [op |-> "Homo", a |-> a, b |-> b, s |-> s, ps |-> ps, sp |-> sp]
OMnem(h, w, l)    == [op |-> "Mnem", h |-> h, w |-> w, list |-> l]
OSeed(t, p, l)    == [op |-> "Seed", t |-> Hex(t), pass |-> Hex(p.p), npass |-> Hex(p.n), list |-> l]
OSeedOf(h, p, l, same) == [op |-> "Seed", tr |-> [f |-> "phrase", h |-> h, same |-> same], pass |-> Hex(p.p), npass |-> Hex(p.n), list |-> l]
OLit(h, k, n)     == [op |-> "Lit", h |-> h, k |-> Hex(k), hex |-> Hex(HexOf(k)), wif |-> Hex(WifOf(k, NetV(n))), n |-> n]
OPubLit(h, p, n)  == [op |-> "PubLit", h |-> h, x |-> Hex(p.x), y |-> Hex(p.y), n |-> n]
ORekey(h, k, n)   == [op |-> "Rekey", h |-> h, k |-> Hex(k), hex |-> Hex(HexOf(k)), wif |-> Hex(WifOf(k, NetV(n)))]
ORekeyPub(h, p)   == [op |-> "RekeyPub", h |-> h, x |-> Hex(p.x), y |-> Hex(p.y)]
OBare(h, k, n)    == [op |-> "Lit", h |-> h, k |-> Hex(k), hex |-> "", wif |-> "", n |-> n]
ORenum(h, k)      == [op |-> "Renum", h |-> h, k |-> Hex(k)]
OForget(h)        == [op |-> "Forget", h |-> h]
ORuin             == [op |-> "Ruin"]
WithCtl(o, i)     == o @@ [ctl |-> i]
WithRng(o, s)     == o @@ [rng |-> s]
OEnd              == [op |-> "End"]

NetAt(i) == Nets[(i % Len(Nets)) + 1]
Chunks(s, n) == [i \in 1..((Len(s) + n - 1) \div n) |-> SubSeq(s, (i - 1) * n + 1, IF i * n < Len(s) THEN i * n ELSE Len(s))]
InHistories(id, ops, n) == LET c == Chunks(ops, n) IN [i \in DOMAIN c |-> H(id \o ToString(i), c[i])]

NoPass == Plain(<<>>)

(* --- private key texts -------------------------------------------------------- *)
HexSuite(z_) ==
  LET pool == ScalarPool("hex")
  IN  [i \in DOMAIN pool |->
         LET k == pool[i] n == NetAt(i)
         IN  H("hex" \o ToString(i),
               << OHex(1, Recase(HexOf(k), i), n), OWifOf(2, 1, n), OHexOf(3, 1, n, i + 1), OCheck(WifOf(k, NetV(n))),
                  OWif(4, CompressedWifOf(k, NetV(n)), n), OWifOf(5, 4, n), OHexOf(6, 2, n, 0), OHexOf(7, 4, n, i), OWifOf(8, 3, n) >>)]
      \o [b \in 1..256 |->      \* every prefix byte
            LET k == RndScalar("prefix", b) n == ByteNet(b - 1, (b * 7) % 256)
            IN  H("prefix" \o ToString(b), << OHex(1, HexOf(k), n), OWifOf(2, 1, n), OWif(3, CompressedWifOf(k, NetV(n)), n), OWif(4, CompressedWifOf(k, NetV(Main)), n) >>)]
      \o [b \in 1..32 |->      \* leading zeros in front of leading zeros
            LET k == RndOfLen("zz", b, b) n == ByteNet(0, b)
            IN  H("zz" \o ToString(b), << OHex(1, HexOf(k), n), OWifOf(2, 1, n), OHexOf(3, 2, n, b), OCheck(WifOf(k, NetV(n))), OWif(4, CompressedWifOf(k, NetV(n)), n), OHexOf(5, 4, n, 0) >>)]
      \o [i \in 1..(30 * Scale) |-> LET k == LimbScalar("hexl", i) n == NetAt(i) IN H("limb" \o ToString(i), << OHex(1, Recase(HexOf(k), i), n), OWifOf(2, 1, n), OWif(3, CompressedWifOf(k, NetV(n)), n) >>)]
BadHexSuite(z_) ==
  LET ks == <<RndScalar("badhex", 1), RndOfLen("badhex", 2, 31), RndOfLen("badhex", 3, 16)>> \o RndScalars("badhex+", 3 * (Scale - 1))
  IN  FlattenSeq([j \in DOMAIN ks |->
        LET ts == BadHexTexts(ks[j]) IN InHistories("badhex" \o ToString(j) \o ".", [i \in DOMAIN ts |-> OHex(1, ts[i], NetAt(i + j))], 40)])
      \o InHistories("badhexjunk", [i \in DOMAIN Junk |-> OHex(1, Junk[i], NetAt(i))], 40)

WifTexts(ts, n, id) ==       \* check and import each text
  InHistories(id, FlattenSeq([i \in DOMAIN ts |-> << OCheck(ts[i]), OWif(1, ts[i], n) >>]), 60)
WifSuite(z_) ==
  LET es == << <<RndScalar("wif", 1), Main, FALSE>>, <<RndScalar("wif", 2), TestN, FALSE>>, <<RndScalar("wif", 3), Main, TRUE>>, <<One, Main, FALSE>>,
               <<RndScalar("wif", 5), NetR("zero", "00", "FF"), FALSE>> >>
            \o [j \in 1..(4 * (Scale - 1)) |-> <<RndScalar("wif+", j), NetAt(j), j % 2 = 0>>]
      txt(e) == IF e[3] THEN CompressedWifOf(e[1], NetV(e[2])) ELSE WifOf(e[1], NetV(e[2]))
  IN  FlattenSeq([j \in DOMAIN es |-> WifTexts(WifEdits(txt(es[j]), RndInt("wife", j, 1000)), es[j][2], "wifedit" \o ToString(j) \o ".")])
      \o FlattenSeq([j \in 1..3 |->      \* other payloads behind a right checksum
            LET n == NetAt(j * 3 - 2) ps == OddPayloads(RndScalar("odd", j), NetV(n))
            IN  WifTexts([i \in DOMAIN ps |-> B58C(ps[i])], n, "odd" \o ToString(j) \o ".")])
      \o WifTexts(FlattenSeq([j \in 1..(30 * Scale) |->      \* wrong checksums
            LET b == OddBody(RndScalar("ck", j))[(j % 8) + 1] p == PrivByte(NetV(NetAt(j))) \o b
            IN  [i \in 1..4 |-> WithBadChecksum(p, i, 1 + RndInt("ckm", 10 * j + i, 255))]
                \o [i \in 1..4 |-> WithBadChecksum(p, i, IF j % 2 = 0 THEN 1 ELSE 128)]
                \o << Base58Encode(p \o Rev(Checksum(p, CK))), Base58Encode(p \o Take(Sha256(p), 4)), Base58Encode(p \o SubSeq(Sha256(Sha256(p)), 29, 32)),
                      Base58Encode(p \o Zeros(4)), Base58Encode(p), Base58Encode(p \o Take(Sha256(Sha256(p)), 3)), Base58Encode(p \o Take(Sha256(Sha256(p)), 5)), Base58Encode(p \o Take(Sha256(Sha256(p)), 8)) >>]), Main, "badck")
      \o FlattenSeq([j \in 1..(4 * Scale) |->      \* every bit of the checksum, and of the payload
            LET n == NetAt(j) p == PrivByte(NetV(n)) \o OddBody(RndScalar("fl", j))[IF j % 4 = 0 THEN 8 ELSE (j % 3) + 1]
            IN  WifTexts(ChecksumFlips(p) \o TwoFlips(p, "tf" \o ToString(j)) \o (IF j % 4 = 1 THEN PayloadFlips(p) ELSE <<>>), n, "flip" \o ToString(j) \o ".")])
      \o WifTexts(Junk, Main, "wifjunk")
      \o WifTexts([i \in 1..60 |-> Base58Encode(RndBytes("b58", i, i % 45))], TestN, "rndb58")
      \o WifTexts([i \in 1..12 |-> B58C(RndBytes("b58c", i, 50 * i))], Main, "longb58")
      \o WifTexts([i \in 1..40 |-> B58C(Zeros(i - 1))], Main, "zeros")
      \o WifTexts([i \in DOMAIN Corpus.wifcase |-> Unhex(Corpus.wifcase[i])], Main, "wifcase")

Dict == JsonDeserialize(IOEnv.VERIF_DICT)

(* --- networks -------------------------------------------------------------------- *)
NetPair(id, a, b, s, c) ==
    LET k == RndScalar("net", s) m == RndScalar("netm", s)
        same == NetV(a) = NetV(b)
        w == <<WifOf(k, NetV(a)), CompressedWifOf(k, NetV(a))>>
        ctl(o, x) == IF same THEN WithCtl(o, x) ELSE o
    IN  H(id,
          << OHex(1, HexOf(k), a), OHex(2, HexOf(m), b), OHex(3, HexOf(m), a),
             OAdd(4, 1, 3), ctl(OAdd(5, 1, 2), 4), ctl(OAdd(6, 2, 1), 4), OMul(7, 1, 3), ctl(OMul(8, 1, 2), 7), ctl(OMul(9, 2, 1), 7),
             OWif(10, w[1], a), ctl(OWif(11, w[1], b), 10), OWif(12, w[2], a), ctl(OWif(13, w[2], b), 12),
             OPub(1, 1), OPub(2, 2), OPub(3, 3), OAddPub(4, 1, 3, c), ctl(OAddPub(5, 1, 2, c), 17), ctl(OAddPub(6, 2, 1, ~c), 17),
             (* the same point and the same scalar on both networks *)
             OHex(14, HexOf(k), b), OAdd(15, 1, 14), OMul(16, 1, 14), OPub(7, 14), OAddPub(8, 1, 7, c), OPubOf(9, 1, c, b, 0), OAddPub(10, 9, 1, c), OAddr(9, c), OAddr(9, ~c),
             OAddr(1, TRUE), OAddr(2, TRUE), OGen(17, a), OGen(18, b), OAdd(19, 17, 18), OPub(11, 17), OAddr(11, TRUE), OPub(12, 5), OAddr(12, FALSE),
             OWifOf(20, 5, b), OWifOf(21, 1, b), OWifOf(22, 17, b) >>)
(* two networks of the same or of different bytes: the known ones, those that the source names, others *)
DictBytes(z_) == LET ts == SelectSeq([i \in DOMAIN Dict.texts |-> Unhex(Dict.texts[i])], LAMBDA t : Len(t) = 2 /\ IsHexText(t))
             IN  [i \in DOMAIN ts |-> Hex(ts[i])]
NetBytes(z_) == LET r(j) == Hex(HexEncode(<<RndInt("netb", j, 256)>>)) h(t) == Hex(Chars(t)) IN << h("80"), h("EF"), h("00"), h("6F"), h("FF"), r(1), r(2) >> \o DictBytes(0)
NetTwins(z_) ==
  LET bs == NetBytes(0) l == Len(bs) at(i) == bs[(i % l) + 1]
      net(id, i, j) == [id |-> id \o at(i) \o at(j), pk |-> at(i), ph |-> at(j)]
  IN  FlattenSeq([i \in 1..l |-> [j \in 1..l |-> NetPair("twin" \o ToString(i) \o "-" \o ToString(j), net("one", i, j), net("two", i, j), 1000 + i * 20 + j, (i + j) % 2 = 0)]])
      \o [i \in 1..(30 * Scale) |-> LET r(x) == RndInt("netp", i * 10 + x, l) IN NetPair("netp" \o ToString(i), net("one", r(1), r(2)), net("two", IF i % 3 = 0 THEN r(1) ELSE r(3), IF i % 3 = 1 THEN r(2) ELSE r(4)), 2000 + i, i % 2 = 0)]
NetSuite(z_) ==
  FlattenSeq([i \in DOMAIN Nets |-> [j \in DOMAIN Nets |-> NetPair("net" \o ToString(i) \o "-" \o ToString(j), Nets[i], Nets[j], i * 20 + j, (i + j) % 2 = 0)]])
  \o NetTwins(0)

(* --- private key arithmetic --------------------------------------------------------- *)
XorBit(k, i) == LET p == Pad(k, 32) j == 32 - (i \div 8) d == Pow2(i % 8)
                IN  Strip([p EXCEPT ![j] = IF (@ \div d) % 2 = 1 THEN @ - d ELSE @ + d])
ArithPairs(z_) ==
  LET a(i) == RndScalar("aa", i)
      inv(x) == ModInv(x, N)
      r == RndInt("xor", 0, 8)
      pool == Specials \o CorpusScalars
  IN  [j \in 1..33 |-> LET t == IF j = 33 THEN One ELSE RndOfLen("sum", j, 33 - j) IN <<a(j), ModSub(t, a(j), N)>>]          \* sums with leading zeros
      \o [j \in 1..33 |-> LET t == IF j = 33 THEN One ELSE RndOfLen("prod", j, 33 - j) IN <<a(100 + j), ModMul(t, inv(a(100 + j)), N)>>]
      \o [j \in 1..15 |-> LET t == [RndOfLen("nib", j, 32) EXCEPT ![1] = j] IN <<a(200 + j), IF j % 2 = 0 THEN ModSub(t, a(200 + j), N) ELSE ModMul(t, inv(a(200 + j)), N)>>]
      \o [j \in 1..5 |-> <<a(300 + j), Minus(a(300 + j))>>]
      \o << <<One, Minus(One)>>, <<One, Two>>, <<Minus(One), Minus(Two)>>, <<Two, Add(HalfN, One)>>, <<HalfN, Add(HalfN, One)>>, <<HalfN, HalfN>>, <<One, One>>, <<One, Minus(Two)>>,
            <<a(1), inv(a(1))>>, <<a(2), Minus(inv(a(2)))>>, <<a(3), ModAdd(a(3), One, N)>>, <<a(4), ModAdd(Minus(a(4)), One, N)>>, <<a(5), ModSub(Minus(a(5)), One, N)>>, <<Minus(One), a(6)>>, <<One, a(7)>>, <<Two, Minus(One)>> >>
      \o [j \in 1..32 |-> <<a(400 + j), XorBit(a(400 + j), 8 * (j - 1) + r)>>]
      \o [j \in 1..31 |-> LET x == Pad(a(500 + j), 32) y == Pad(a(600 + j), 32)      \* equal heads, equal tails
                          IN  <<Strip(x), IF j % 2 = 0 THEN Strip(Take(x, j) \o SubSeq(y, j + 1, 32)) ELSE Strip(<<y[1] \div 2>> \o SubSeq(y, 2, j) \o SubSeq(x, j + 1, 32))>>]
      \o [j \in 1..(Len(pool) - 1) |-> <<pool[j], pool[j + 1]>>]
      \o [j \in 1..(40 * Scale) |-> <<LimbScalar("la", j), LimbScalar("lb", j)>>]
      \o PairScalars
      \o [j \in 1..(60 * Scale) |-> <<a(1000 + j), RndScalar("ab", j)>>]
(* small numbers, all pairs, in one process *)
SmallPairs(z_) ==
  LET ks == [i \in 1..9 |-> <<i>>] \o <<<<11>>, <<12>>, <<17>>, <<18>>, <<21>>, <<23>>>>
      prs == SelectSeq(FlattenSeq([i \in DOMAIN ks |-> [j \in DOMAIN ks |-> <<i, j>>]]), LAMBDA p : p[1] # p[2])
  IN  << H("smallpriv", [i \in DOMAIN ks |-> OHex(i, HexOf(ks[i]), Main)] \o FlattenSeq([i \in DOMAIN prs |-> << OAdd(20, prs[i][1], prs[i][2]), OMul(21, prs[i][1], prs[i][2]) >>])) >>
SmallPubPairs(z_) ==
  LET ks == [i \in 1..9 |-> <<i>>] \o <<Minus(One), Minus(Two), Minus(<<3>>)>>
      prs == FlattenSeq([i \in DOMAIN ks |-> [j \in DOMAIN ks |-> <<i, j>>]])
  IN  << H("smallpub", FlattenSeq([i \in DOMAIN ks |-> << OLit(i, ks[i], Main), OPub(i, i) >>]) \o [i \in DOMAIN prs |-> OAddPub(20, prs[i][1], prs[i][2], i % 2 = 0)]) >>
ArithSuite(z_) ==
  LET ps == SelectSeq(ArithPairs(0), LAMBDA p : InRange(p[1]) /\ InRange(p[2]))
  IN  [i \in DOMAIN ps |-> LET a == ps[i][1] b == ps[i][2] n == NetAt(i) m == IF i % 11 = 0 THEN NetR("copy", "80", "00") ELSE n
         IN H("arith" \o ToString(i),
              << OHex(1, Recase(HexOf(a), i), n), OHex(2, Recase(HexOf(b), i + 1), m), OAdd(3, 1, 2), OAdd(4, 2, 1), OMul(5, 1, 2), OMul(6, 2, 1),
                 OWifOf(7, 3, n), OHexOf(8, 3, n, i), OWifOf(9, 5, n), OHexOf(10, 5, n, i), OAdd(11, 3, 5), OMul(12, 3, 5), OAdd(13, 3, 1), OMul(14, 3, 2), OWifOf(15, 11, n), OHexOf(16, 12, n, 0) >>)]
      \o [i \in 1..10 |-> LET a == Pick(Specials \o RndScalars("id", 40), "idp", i) n == NetAt(i)      \* one number, held in several ways
         IN H("ident" \o ToString(i),
              << OHex(1, HexOf(a), n), OHex(2, Upper(HexOf(a)), n), OWif(3, WifOf(a, NetV(n)), n), OWif(4, CompressedWifOf(a, NetV(n)), n), OLit(5, a, n) >>
              \o FlattenSeq([x \in 1..5 |-> FlattenSeq([y \in 1..5 |-> << OAdd(6, x, y), OMul(7, x, y) >>])]))]
      \o SmallPairs(0)
      \o [i \in 1..(Len(Corpus.wifcase) \div 2) |-> H("wifcase" \o ToString(i),
              << OWif(1, Unhex(Corpus.wifcase[2*i - 1]), Main), OWif(2, Unhex(Corpus.wifcase[2*i]), Main), OAdd(3, 1, 2), OMul(4, 1, 2), OAdd(5, 2, 1), OMul(6, 2, 1) >>)]

(* --- public keys ------------------------------------------------------------------------ *)
OutOfRange == << <<>>, N, Add(N, One), Add(N, Two), Mul(Two, N), Add(Mul(Two, N), One), Sub(PowTwo(256), One), PowTwo(256), Add(PowTwo(256), One), PowTwo(300), Add(N, HalfN) >>
PubSuite(z_) ==
  LET pool == ScalarPool("pub")
  IN  [i \in DOMAIN pool |->
         LET k == pool[i] n == NetAt(i) c == (i % 2 = 0)
         IN  H("pub" \o ToString(i),
               << OHex(1, HexOf(k), n), OPub(1, 1), OFormat(1, TRUE), OFormat(1, FALSE), OAddr(1, TRUE), OAddr(1, FALSE),
                  OPubOf(2, 1, c, n, i), OPubOf(3, 1, ~c, n, i + 1), OFormat(2, ~c), OAddr(3, c), OFormat(3, TRUE), OAddr(2, ~c) >>)]
      \o [i \in 1..(20 * Scale) |-> LET k == LimbScalar("publ", i) n == NetAt(i) IN H("publimb" \o ToString(i), << OHex(1, HexOf(k), n), OPub(1, 1), OHex(2, HexOf(Minus(k)), n), OPub(2, 2), OFormat(1, TRUE), OFormat(2, TRUE), OAddr(1, TRUE), OAddr(2, TRUE) >>)]
      \o [i \in DOMAIN OutOfRange |-> H("range" \o ToString(i), << OLit(1, OutOfRange[i], NetAt(i)), OPub(1, 1) >>)]
      \o [i \in 1..3 |-> H("neg" \o ToString(i), << [OLit(1, Specials[i], Main) EXCEPT !.k = "-" \o @], OPub(1, 1) >>)]
(* keys the caller made, or whose number it changed: only the number counts *)
BareSuite(z_) ==
  LET ps == <<One, Two, Minus(One), Minus(Two), HalfN>> \o RndScalars("bare", 12 * Scale)
      at(i) == ps[((i - 1) % Len(ps)) + 1]
  IN  [i \in DOMAIN ps |-> LET a == ps[i] b == at(i + 1) c == at(i + 2) n == NetAt(i)
         IN H("bare" \o ToString(i),
              << OBare(1, a, n), OPub(1, 1), OBare(2, b, n), OPub(2, 2), OPub(3, 1), OAdd(3, 1, 2), OMul(4, 1, 2), OAdd(5, 2, 1), OPub(4, 3), OAddPub(5, 1, 2, FALSE), OHomo(1, 2, 3, 4, 5),
                 ORenum(1, c), OPub(6, 1), OAdd(6, 1, 2), OMul(7, 2, 1), ORenum(2, c), OAdd(8, 1, 2), OMul(9, 1, 2),
                 OHex(10, HexOf(a), n), OPub(7, 10), ORenum(10, b), OPub(8, 10), OAdd(11, 10, 1), OHex(12, HexOf(b), n), OAdd(13, 10, 12), OMul(14, 10, 12), OMul(15, 10, 1),
                 OBare(16, a, n), OHex(17, HexOf(a), n), OAdd(18, 16, 17), OAdd(19, 16, 12), OPub(9, 16) >>)]
      \o [i \in DOMAIN OutOfRange |-> H("barerange" \o ToString(i), << OHex(1, HexOf(RndScalar("br", i)), NetAt(i)), OPub(1, 1), ORenum(1, OutOfRange[i]), OPub(2, 1), ORenum(1, One), OPub(3, 1) >>)]

(* everything shared is found when the caller overwrites all it has *)
Probe(n, k, m) ==
  << OHex(1, HexOf(k), n), OPub(1, 1), OHex(2, HexOf(m), n), OPub(2, 2), OAdd(3, 1, 2), OMul(4, 1, 2), OAddPub(3, 1, 2, TRUE), OAddPub(4, 1, 1, FALSE),
     OPubOf(5, 1, TRUE, n, 0), OPubOf(6, 2, FALSE, n, 0), OFormat(3, TRUE), OAddr(4, FALSE), OWifOf(5, 3, n), OEnd >>
AliasSuite(z_) ==
  LET ks == <<One, Two, <<3>>, Minus(One), Minus(Two), HalfN>> \o RndScalars("alias", 3 * Scale)
      two == RndScalar("alias2", 0)
  IN  FlattenSeq([i \in DOMAIN ks |-> LET k == ks[i] n == NetAt(i) m == IF k = two THEN One ELSE two c == (i % 2 = 0) IN
        << [H("alias" \o ToString(i),
             << OHex(1, HexOf(k), n), OHex(2, HexOf(m), n), OHex(3, HexOf(One), n), OAdd(4, 1, 2), OMul(5, 1, 3), OMul(6, 3, 1), OMul(7, 2, 3), OMul(8, 3, 2), OAdd(9, 2, 3), OGen(10, n), OWifOf(11, 1, n), OHexOf(12, 1, n, 0),
                OPub(1, 1), OPub(2, 2), OPub(3, 3), OPub(4, 1), OPubOf(5, 1, TRUE, n, 0), OPubOf(6, 1, FALSE, n, 0), OAddPub(7, 1, 2, c), OAddPub(8, 1, 1, c), OAddPub(9, 1, 4, c), OAddPub(10, 3, 1, c), ORuin >>
             \o Probe(n, IF c THEN One ELSE k, IF c THEN k ELSE <<7>>)) EXCEPT !.solo = TRUE] >>])

(* the caller changes its network, and its word list, between calls *)
MutableSuite(z_) ==
  [i \in 1..(8 * Scale) |->
     LET k == RndScalar("mut", i) m == RndScalar("mut2", i) id == "own" \o ToString(i)
         b(j) == RndInt("mutb", i * 10 + j, 256)
         n1 == [ByteNet(b(1), b(2)) EXCEPT !.id = id]
         n2 == [ByteNet((b(1) + 1) % 256, b(2)) EXCEPT !.id = id]
         n3 == [ByteNet(b(1), (b(2) + 1) % 256) EXCEPT !.id = id]
         round(n) == << OHex(1, HexOf(k), n), OPub(1, 1), OAddr(1, i % 2 = 0), OHex(2, HexOf(m), n), OAdd(3, 1, 2), OGen(4, n), OPub(2, 3), OAddr(2, i % 2 = 1),
                        OWif(5, WifOf(k, NetV(n1)), n), OWif(6, WifOf(k, NetV(n2)), n), OWif(7, CompressedWifOf(m, NetV(n1)), n), OImpPub(3, FormatR(PubOf(k, NetV(n)), TRUE), n), OAddr(3, TRUE), OAddPub(4, 1, 2, TRUE) >>
         drop == [j \in 1..7 |-> OForget(j)] \o [j \in 1..4 |-> [op |-> "ForgetPub", h |-> j]]
     IN  H("mutnet" \o ToString(i), round(n1) \o drop \o round(n2) \o drop \o round(n3) \o drop \o round(n1) \o <<OEnd>>)]
  \o [i \in 1..(6 * Scale) |->
     LET t(j, l) == PhraseOf(IF j % 2 = 0 THEN RndBytes("mutp", i * 10 + j, 16) ELSE Zeros(16), WordList(l))
         e(x) == EdNames[((i + x) % 3) + 1]
         round(a, b) == << OSeed(t(1, a), NoPass, a), OSeed(t(2, a), NoPass, a), OSeed(t(1, b), NoPass, a), OMnem(1, 12, a), OSeedOf(1, NoPass, a, TRUE), OSeed(t(3, "English"), NoPass, a), OSeed(t(3, "English"), NoPass, "English") >>
     IN  H("mutlist" \o ToString(i), round(e(0), e(1)) \o round(e(1), e(0)) \o round(e(2), e(0)) \o round(e(0), e(2)) \o <<OEnd>>)]

(* many calls in one process *)
LongSuite(z_) ==
  << H("longkeys", [i \in 1..1500 |-> LET k == RndScalar("long", i % 7) n == NetAt(i % 3) IN
        CASE i % 5 = 0 -> OHex(1, HexOf(k), n) [] i % 5 = 1 -> OWif(2, WifOf(k, NetV(n)), n) [] i % 5 = 2 -> OAdd(3, 1, 2) [] i % 5 = 3 -> OMul(4, 1, 2) [] OTHER -> OCheck(WifOf(k, NetV(n)))]),
     H("longpub", << OHex(1, HexOf(RndScalar("long", 8)), Main), OPub(1, 1), OHex(2, HexOf(RndScalar("long", 9)), Main), OPub(2, 2) >> \o [i \in 1..1500 |->
        CASE i % 5 = 0 -> OFormat(1, i % 2 = 0) [] i % 5 = 1 -> OAddr(2, i % 2 = 0) [] i % 5 = 2 -> OAddPub(3, 1, 2, i % 2 = 0) [] i % 5 = 3 -> OPubOf(4, 3, i % 2 = 0, Main, 0) [] OTHER -> OAddPub(5, 3, 4, FALSE)]),
     H("longderive", << OHex(1, HexOf(RndScalar("long", 8)), Main), OHex(2, HexOf(RndScalar("long", 9)), Main) >> \o [i \in 1..300 |-> OPub(1 + (i % 2), 1 + (i % 2))]),
     H("longseed", [i \in 1..300 |-> OSeed(PhraseOf(RndBytes("longs", i % 4, 16), WordList("English")), Plain(Chars(IF i % 3 = 0 THEN "a" ELSE "b")), "English")]) >>
(* many keys held at once *)
HoldSuite(z_) ==
  LET n == Main ks == [i \in 1..70 |-> RndScalar("hold", i)] pt(i) == PubOf(ks[i], NetV(n)) IN
  << H("holdpriv", [i \in 1..70 |-> OHex(i, HexOf(ks[i]), n)] \o [i \in 1..70 |-> OWif(100 + i, WifOf(ks[i], NetV(n)), n)] \o [i \in 1..69 |-> OAdd(200 + i, i, i + 1)] \o [i \in 1..69 |-> OMul(300 + i, i, i + 1)] \o [i \in 1..70 |-> OGen(400 + i, n)] \o << OEnd >>),
     H("holdpub", [i \in 1..70 |-> OPubLit(i, pt(i), n)] \o [i \in 1..70 |-> OPubOf(100 + i, i, TRUE, n, 0)] \o [i \in 1..70 |-> OPubOf(200 + i, i, FALSE, n, 0)] \o [i \in 1..69 |-> OAddPub(300 + i, i, i + 1, FALSE)] \o [i \in 1..70 |-> OAddPub(400 + i, i, i, TRUE)] \o << OEnd >>),
     H("holdderived", [i \in 1..70 |-> OHex(i, HexOf(ks[i]), n)] \o [i \in 1..70 |-> OPub(i, i)] \o << OEnd >>) >>
LongGen(z_) == << H("longgen", [i \in 1..(2500 * (IF Scale > 1 THEN 4 ELSE 1)) |-> OGen(1, NetAt(i))]) >>
(* long runs on two scripts: the same bytes give the same result however often it was asked *)
LongScripts(z_) == << H("longscript", [i \in 1..1100 |-> WithRng(OGen(1, NetAt(i)), [s |-> Hex(RndBytes("lsc", i % 3, 32)), ch |-> 0])]) >>
LongMnemScripts(z_) == << H("longmscript", [i \in 1..1100 |-> WithRng(OMnem(1, <<12, 24>>[(i % 2) + 1], "English"), [s |-> Hex(RndBytes("lmc", i % 3, 32)), ch |-> 0])]) >>
(* the caller clears a seed it got, and asks again *)
WipeSuite(z_) ==
  [i \in 1..(8 * Scale) |->
     LET l == IF i % 3 = 0 THEN "French" ELSE "English" e(j) == RndBytes("wipe", i * 10 + j, Sizes[((i + j) % 5) + 1])
         s(j) == OSeed(PhraseOf(e(j), WordList(l)), IF i % 2 = 0 THEN NoPass ELSE Plain(Chars("pw")), l)
         w == [op |-> "WipeSeed"]
     IN  Solo(H("wipe" \o ToString(i), << s(1), w, s(1), w, s(2), w, s(1), s(2), w, s(2), w, OSeed(Glue(Tail(WordsOf(PhraseOf(e(1), WordList(l))))), NoPass, l), w, s(1), s(1), w, s(1) >>))]
LongMnem(z_) == << H("longmnem", [i \in 1..1200 |-> OMnem(1, <<12, 15, 18, 21, 24>>[(i % 5) + 1], "English")]) >>
AddrSuite(z_) ==
  LET pt(i) == PubOf(RndScalar("addr", i), NetV(Main))
  IN  [b \in 1..256 |-> LET n == ByteNet((b * 11) % 256, b - 1) IN H("addr" \o ToString(b), << OPubLit(1, pt(b), n), OAddr(1, b % 2 = 0), OAddr(1, b % 2 = 1) >>)]
      \o [i \in DOMAIN CorpusScalars |-> H("addrc" \o ToString(i), << OPubLit(1, PubOf(CorpusScalars[i], NetV(Main)), NetAt(i)), OAddr(1, TRUE), OAddr(1, FALSE), OFormat(1, TRUE), OFormat(1, FALSE) >>)]
      \o [i \in 1..(100 * Scale) |-> H("addrr" \o ToString(i), << OPubLit(1, PubOf(RndScalar("addrr", i), NetV(Main)), NetAt(i)), OAddr(1, i % 2 = 0), OAddr(1, i % 2 = 1), OFormat(1, i % 3 = 0), OPubOf(2, 1, i % 2 = 0, NetAt(i), i) >>)]
(* points with small coordinates, and pairs that agree in part *)
PointOps(p, n, c) ==
  << OPubLit(1, p, n), OFormat(1, TRUE), OFormat(1, FALSE), OAddr(1, TRUE), OAddr(1, FALSE), OPubLit(2, [x |-> p.x, y |-> ModNeg(p.y, P)], n), OFormat(2, TRUE), OFormat(2, FALSE), OAddr(2, TRUE), OAddr(2, FALSE),
     OPubOf(3, 1, c, n, 0), OPubOf(4, 2, ~c, n, 1), OPubOf(5, 1, ~c, n, 2), OPubOf(6, 2, c, n, 0), OAddPub(7, 1, 2, c), OAddPub(8, 1, 1, c), OAddPub(9, 2, 2, c), OAddPub(10, 8, 2, c), OAddPub(11, 3, 5, c), OAddPub(12, 1, 6, c) >>
PointSuite(z_) ==
  LET xs == SelectSeq([i \in 1..(40 * Scale) |-> Strip(<<i \div 256, i % 256>>)], LAMBDA x : HasX(x, B, P))
  IN  [i \in DOMAIN xs |-> LET q == LiftX(xs[i], i % 2 = 0, B, P) IN H("xsmall" \o ToString(i), PointOps([x |-> q[1], y |-> q[2]], NetAt(i), i % 2 = 0))]
      \o [i \in DOMAIN SmallY |-> H("smally" \o ToString(i), PointOps(SmallY[i], NetAt(i), i % 2 = 0))]
      \o [i \in DOMAIN PairScalars |-> LET a == PairScalars[i][1] b == PairScalars[i][2] n == NetAt(i) c == (i % 2 = 0) IN
            H("agree" \o ToString(i), << OHex(1, HexOf(a), n), OHex(2, HexOf(b), n), OPub(1, 1), OPub(2, 2), OFormat(1, c), OFormat(2, c), OFormat(1, ~c), OFormat(2, ~c), OAddr(1, TRUE), OAddr(2, TRUE), OAddr(1, FALSE), OAddr(2, FALSE),
                 OAddPub(3, 1, 2, c), OAddPub(4, 2, 1, c), OPubOf(5, 1, c, n, 0), OPubOf(6, 2, c, n, 0), OPubOf(7, 2, ~c, n, 0), OAdd(3, 1, 2), OPub(8, 3), OHomo(1, 2, 3, 8, 3), OWifOf(4, 1, n), OWifOf(5, 2, n) >>)]
      \o SmallPubPairs(0)
PubAddSuite(z_) ==
  LET base == << <<One, One>>, <<One, Two>>, <<Two, One>>, <<One, Minus(One)>>, <<One, Minus(Two)>>, <<Two, Minus(One)>>, <<HalfN, Add(HalfN, One)>>, <<HalfN, HalfN>>, <<Minus(One), Minus(One)>>, <<Minus(One), Minus(Two)>>, <<<<3>>, Minus(One)>>, <<Specials[29], Specials[30]>>, <<One, Specials[29]>> >>
      a(i) == RndScalar("pa", i)
      ps == base \o [i \in 1..8 |-> <<a(i), a(i)>>] \o [i \in 1..8 |-> <<a(20 + i), Minus(a(20 + i))>>] \o [i \in 1..8 |-> <<a(40 + i), ModMul(Two, a(40 + i), N)>>]
            \o [i \in 1..8 |-> <<a(60 + i), ModMul(Minus(Two), a(60 + i), N)>>] \o [i \in 1..4 |-> <<a(80 + i), ModMul(Specials[29], a(80 + i), N)>>] \o [i \in 1..4 |-> <<a(90 + i), ModMul(Minus(Specials[29]), a(90 + i), N)>>]      \* the same y, opposite y
           
            \o [i \in DOMAIN CorpusScalars |-> <<a(100 + i), ModSub(CorpusScalars[i], a(100 + i), N)>>]       \* the sum has leading zeros
            \o [i \in 1..20 |-> <<Pick(CorpusScalars, "pc", i), Pick(CorpusScalars, "pd", i)>>]
            \o [i \in 1..(40 * Scale) |-> <<a(1000 + i), RndScalar("pb", i)>>]
      qs == SelectSeq(ps, LAMBDA p : InRange(p[1]) /\ InRange(p[2]))
  IN  [i \in DOMAIN qs |-> LET x == qs[i][1] y == qs[i][2] n == NetAt(i) c == (i % 2 = 0) p == PubOf(x, NetV(n))
         IN H("padd" \o ToString(i),
              << OLit(1, x, n), OLit(2, y, n), OPub(1, 1), OPub(2, 2), OAddPub(3, 1, 2, c), OAddPub(4, 2, 1, ~c), OAdd(3, 1, 2), OPub(5, 3), OHomo(1, 2, 3, 5, 3),
                 OPubLit(6, p, n), OAddPub(7, 1, 6, c), OPubLit(8, [x |-> p.x, y |-> ModNeg(p.y, P)], n), OAddPub(9, 1, 8, c), OAddPub(10, 8, 6, ~c),
                 OAddPub(11, 3, 1, c), OAddPub(12, 3, 8, c), OFormat(3, c), OPubOf(13, 3, c, n, i), OPubOf(14, 3, ~c, n, i), OAddr(3, c), OAddPub(15, 13, 14, c), OAddPub(16, 1, 1, ~c) >>)]
BadPubSuite(z_) ==
  LET ks == <<RndScalar("badpub", 1)>> \o RndScalars("badpub+", Scale - 1)
  IN  FlattenSeq([j \in DOMAIN ks |-> LET ts == BadPubList(ks[j], RndInt("bpo", j, 50)) IN InHistories("badpub" \o ToString(j) \o ".", [i \in DOMAIN ts |-> OImpPub(1, ts[i], NetAt(i + j))], 40)])
      \o InHistories("badpubjunk", [i \in DOMAIN Junk |-> OImpPub(1, Junk[i], NetAt(i))], 40)
      \o InHistories("rndx", FlattenSeq([i \in 1..(60 * Scale) |->      \* about half of them are points
            LET x == HexEncode(RndBytes("rndx", i, 32)) IN << OImpPub(1, Chars(IF i % 2 = 0 THEN "02" ELSE "03") \o Recase(x, i), NetAt(i)), OImpPub(2, Chars("04") \o x \o HexEncode(RndBytes("rndy", i, 32)), NetAt(i)) >>]), 40)
      \o InHistories("smallx", [i \in 1..60 |-> OImpPub(1, Chars(IF i % 2 = 0 THEN "02" ELSE "03") \o HexOf(Strip(<<i \div 2>>)), Main)], 40)
      \o InHistories("bigx", [i \in 1..60 |-> OImpPub(1, Chars(IF i % 2 = 0 THEN "02" ELSE "03") \o HexOf(Sub(Add(P, <<20>>), <<i \div 2 + 1>>)), Main)], 40)

(* --- mnemonics ------------------------------------------------------------------------------ *)
GoodSeq == << "English", "French", "Japanese", "Italian", "Spanish", "Korean", "Czech", "ChineseTraditional", "ChineseSimplified", "English/rev", "English/copy", "English/rot", "Japanese/rev" >>
BadSeq == SetToSeq(BadLists)
Stream(s) == [s |-> Hex(s)]
MnemSuite(z_) ==
  FlattenSeq([i \in DOMAIN GoodSeq |-> [j \in 1..5 |->
      LET w == (Sizes[j] * 3) \div 4 IN H("mnem" \o GoodSeq[i] \o ToString(w), << OMnem(1, w, GoodSeq[i]), OSeedOf(1, NoPass, GoodSeq[i], TRUE), OMnem(2, w, GoodSeq[i]), OMnem(3, w, GoodSeq[i]), OSeedOf(2, NoPass, "Italian", FALSE) >>)]])
  \o FlattenSeq([j \in 1..5 |->      \* entropies of all shapes: the stream may become the entropy
      LET n == Sizes[j] es == EntropyShapes("shape" \o ToString(j), n) \o CorpusEntropies(n) w == (n * 3) \div 4
      IN  [i \in DOMAIN es |-> H("ment" \o ToString(n) \o "-" \o ToString(i), << WithRng(OMnem(1, w, GoodSeq[((i + j) % 13) + 1]), Stream(es[i])), OSeedOf(1, NoPass, GoodSeq[((i + j) % 13) + 1], TRUE) >>)]])
  \o InHistories("mcount", [i \in 1..60 |-> OMnem(1, i - 12, GoodSeq[(i % 13) + 1])] \o << OMnem(1, 128, "English"), OMnem(1, 160, "English"), OMnem(1, 192, "English"), OMnem(1, 256, "English"), OMnem(1, 2147483647, "English"), OMnem(1, -2147483647, "English"), OMnem(1, 1000000, "English") >>
        \o FlattenSeq([i \in 1..5 |-> LET w == <<12, 15, 18, 21, 24>>[i] IN << OMnem(1, 256 + w, "English"), OMnem(1, 65536 + w, "English"), OMnem(1, -w, "English"), OMnem(1, 2 * w, "English"), OMnem(1, 32 + w, "English") >>]), 20)
  \o InHistories("mlist", FlattenSeq([i \in DOMAIN BadSeq |-> [j \in 1..8 |-> OMnem(1, <<12, 15, 18, 21, 24, 0, 11, 3>>[j], BadSeq[i])]]), 20)
  \o InHistories("mmany", [i \in 1..(100 * Scale) |-> OMnem(1, <<12, 15, 18, 21, 24>>[(i % 5) + 1], GoodSeq[((i \div 5) % 9) + 1])], 20)

PhraseEdits(ws, l, o) ==       \* ws: the words of a phrase of list l
  LET n == Len(ws) w(i) == WordList(l)[((i * 37 + o) % 2048) + 1]
      t == Glue(ws) other == WordList(IF l = "French" THEN "English" ELSE "French")
  IN  [i \in 1..n |-> Glue([ws EXCEPT ![i] = w(i)])]
      \o [i \in 1..n |-> Glue([ws EXCEPT ![n] = w(i + n)])]
      \o [i \in 1..n |-> Glue(SubSeq(ws, 1, i - 1) \o SubSeq(ws, i + 1, n))]
      \o [i \in 1..n |-> Glue(SubSeq(ws, 1, i) \o <<w(i)>> \o SubSeq(ws, i + 1, n))]
      \o [i \in 1..(n - 1) |-> Glue([ws EXCEPT ![i] = ws[i + 1], ![i + 1] = ws[i]])]
      \o [i \in 1..n |-> Glue([ws EXCEPT ![i] = Upper(@)])]
      \o [i \in 1..n |-> Glue([ws EXCEPT ![i] = Take(@, IF Len(@) > 1 THEN Len(@) - 1 ELSE 1)])]
      \o [i \in 1..n |-> Glue([ws EXCEPT ![i] = @ \o Chars("s")])]
      \o [i \in 1..n |-> Glue([ws EXCEPT ![i] = other[i * 40]])]
      \o [i \in 1..n |-> Glue([ws EXCEPT ![i] = <<>>])]
      \o << <<32>> \o t, t \o <<32>>, t \o <<10>>, t \o <<13, 10>>, t \o <<0>>, <<9>> \o t, Join(ws, <<32, 32>>), Join(ws, <<9>>), Join(ws, <<10>>), Join(ws, <<44>>), Join(ws, <<194, 160>>), Join(ws, <<227, 128, 128>>), Join(ws, <<45>>), Join(ws, <<>>),
            Upper(t), <<UpperC(t[1])>> \o Tail(t), Glue(Rev(ws)), t \o <<32>> \o t, Take(t, Len(t) - 1), Tail(t), Glue(Take(ws, 1)), Glue(Take(ws, 3)), Glue(Take(ws, 6)), Glue(Take(ws, 9)), <<>>, <<32>>, Glue(ws \o ws), Glue(ws \o ws \o ws) >>

(* phrases that are wrong in one bit *)
XorIdx(x, j) == IF (x \div Pow2(j)) % 2 = 1 THEN x - Pow2(j) ELSE x + Pow2(j)
NearMisses(e, l) ==
  LET ix == EntropyToIndices(e, CR, WB) n == Len(ix)
      txt(v) == Glue([i \in DOMAIN v |-> WordList(l)[v[i] + 1]])
  IN  [j \in 1..11 |-> txt([ix EXCEPT ![n] = XorIdx(@, j - 1)])]
      \o [i \in 1..n |-> txt([ix EXCEPT ![i] = XorIdx(@, i % 11)])]

(* phrases of wrong lengths whose last word would fit if the rule were stretched to them *)
Stretched(l) == FlattenSeq([e \in 1..13 |-> LET n == <<4, 8, 12, 36, 40, 64, 44, 48, 52, 56, 60, 128, 256>>[e] IN << PhraseOf(RndBytes("stretch", e, n), WordList(l)), PhraseOf(Zeros(n), WordList(l)) >>])
SameWords(l) == [i \in 1..40 |-> Glue([j \in 1..(i % 26) |-> WordList(l)[IF i > 20 THEN 2048 ELSE 1]])]

SeedSuite(z_) ==
  FlattenSeq([i \in DOMAIN GoodSeq |-> [j \in 1..5 |->      \* valid phrases
      LET l == GoodSeq[i] e == Pick(EntropyShapes("sd" \o ToString(i), Sizes[j]) \o CorpusEntropies(Sizes[j]), "sde", i * 10 + j) t == PhraseOf(e, WordList(l))
      IN H("seed" \o l \o ToString(j), << OSeed(t, Pick(Passphrases, "sp", i * 10 + j), l), OSeed(PhraseOf(RndBytes("sv", i * 10 + j, Sizes[j]), WordList(l)), NoPass, l), OSeed(t, NoPass, GoodSeq[((i + j) % 13) + 1]) >>)]])
  \o FlattenSeq([j \in 1..5 |-> LET es == EntropyShapes("se" \o ToString(j), Sizes[j]) \o CorpusEntropies(Sizes[j])
      IN InHistories("sent" \o ToString(j) \o ".", [i \in DOMAIN es |-> OSeed(PhraseOf(es[i], WordList(GoodSeq[((i + j) % 9) + 1])), NoPass, GoodSeq[((i + j) % 9) + 1])], 20)])
  \o InHistories("spass", [i \in DOMAIN Passphrases |-> LET l == GoodSeq[(i % 9) + 1] IN OSeed(PhraseOf(RndBytes("pw", i, Sizes[(i % 5) + 1]), WordList(l)), Passphrases[i], l)], 20)
  \o InHistories("scomposed", [i \in DOMAIN Composed |-> OSeed(PhraseOf(RndBytes("pc", i, 16), WordList("English")), Composed[i], "English")], 20)
  \o InHistories("szero", [i \in DOMAIN SeedEntropies |-> OSeed(PhraseOf(SeedEntropies[i], WordList("English")), NoPass, "English")], 20)      \* seeds with zeros at the ends
  \o InHistories("srnd", [i \in 1..(60 * Scale) |-> LET l == GoodSeq[(i % 13) + 1] IN OSeed(PhraseOf(RndBytes("sr", i, Sizes[(i % 5) + 1]), WordList(l)), Plain(RndBytes("srp", i, i % 32)), l)], 20)
(* every word of every list, at changing places *)
AllWords == << "English", "French", "Japanese", "Italian", "Spanish", "Korean", "Czech", "ChineseTraditional", "ChineseSimplified" >>
WordEntropies(o) ==      \* 92 entropies of 32 bytes: their phrases have all 2048 words
  [i \in 1..92 |-> LET bits == FlattenSeq([j \in 1..24 |-> LET x == ((i - 1) * 23 + (j % 23) + o) % 2048 IN [b \in 1..11 |-> (x \div Pow2(11 - b)) % 2]])
                   IN  [j \in 1..32 |-> LET at == (j - 1) * 8 IN bits[at+1] * 128 + bits[at+2] * 64 + bits[at+3] * 32 + bits[at+4] * 16 + bits[at+5] * 8 + bits[at+6] * 4 + bits[at+7] * 2 + bits[at+8]]]
SeedWords(z_) ==
  FlattenSeq([i \in DOMAIN AllWords |-> LET l == AllWords[i] es == WordEntropies(RndInt("wo", i, 2048)) IN InHistories("words" \o l, [j \in DOMAIN es |-> OSeed(PhraseOf(es[j], WordList(l)), NoPass, l)], 23)])
MnemWords(z_) ==
  FlattenSeq([i \in DOMAIN AllWords |-> LET l == AllWords[i] es == WordEntropies(RndInt("wm", i, 2048)) IN InHistories("mwords" \o l, [j \in DOMAIN es |-> WithRng(OMnem(1, 24, l), Stream(es[j]))], 23)])
(* a phrase that goes on as a longer phrase, and a passphrase that looks like the rest of it *)
BytesOfBits(bs) == [j \in 1..(Len(bs) \div 8) |-> LET at == (j - 1) * 8 IN bs[at+1] * 128 + bs[at+2] * 64 + bs[at+3] * 32 + bs[at+4] * 16 + bs[at+5] * 8 + bs[at+6] * 4 + bs[at+7] * 2 + bs[at+8]]
BitsOfIndices(ix) == FlattenSeq([j \in DOMAIN ix |-> [b \in 1..11 |-> (ix[j] \div Pow2(11 - b)) % 2]])
Longer(e, n, tag, i) ==      \* an entropy of n bytes whose phrase starts with the phrase of e
  LET bs == BitsOfIndices(EntropyToIndices(e, CR, WB)) more == BitsOf(RndBytes(tag, i, 32)) IN BytesOfBits(Take(bs \o more, 8 * n))
PrefixSuite(z_) ==
  [i \in 1..(10 * Scale) |->
     LET l == IF i % 3 = 0 THEN "French" ELSE "English" a == (i % 4) + 1 e == RndBytes("pre", i, Sizes[a]) f == Longer(e, Sizes[a + 1], "pre2", i)
         t == PhraseOf(e, WordList(l)) u == PhraseOf(f, WordList(l)) rest == SubSeq(u, Len(t) + 1, Len(u))
     IN  H("prefix" \o ToString(i), << OSeed(t, Plain(rest), l), OSeed(u, NoPass, l), OSeed(t, NoPass, l), OSeed(t, Plain(Tail(rest)), l), OSeed(u, Plain(Chars("x")), l), OSeed(t, Plain(rest \o Chars("x")), l), OSeed(u, Plain(Chars("x")), l) >>)]
(* words in composed form are other words *)
ComposedWords(z_) == LET ws == SelectSeq(More.nfc, LAMBDA w : TRUE) IN
  InHistories("nfcword", FlattenSeq([i \in DOMAIN ws |-> LET l == ws[i].list e == RndBytes("nfc", i, 16) ix == EntropyToIndices([e EXCEPT ![1] = ws[i].i \div 8, ![2] = (@ % 32) + 32 * (ws[i].i % 8)], CR, WB)
        t == [j \in DOMAIN ix |-> WordList(l)[ix[j] + 1]] IN << OSeed(Glue(t), NoPass, l), OSeed(Glue([t EXCEPT ![1] = Unhex(ws[i].c)]), NoPass, l) >>]), 20)
BadSeedSuite(z_) ==
  FlattenSeq([j \in 1..(7 * Scale) |->
      LET l == GoodSeq[((j * 4) % 9) + 1] ws == WordsOf(PhraseOf(RndBytes("be", j, Sizes[(j % 5) + 1]), WordList(l))) ts == PhraseEdits(ws, l, RndInt("beo", j, 2048))
      IN InHistories("sedit" \o ToString(j) \o ".", [i \in DOMAIN ts |-> OSeed(ts[i], NoPass, l)], 40)])
  \o ComposedWords(0)
  \o InHistories("slast", [i \in 1..(64 * Scale) |->      \* other last words: one of 16 (12 words) to 256 (24 words) fits
      LET n == Sizes[(i % 5) + 1] ws == WordsOf(PhraseOf(RndBytes("lw", i % 5, n), WordList("English"))) IN OSeed(Glue([ws EXCEPT ![Len(ws)] = WordList("English")[((i * 31 + RndInt("lwo", 0, 2048)) % 2048) + 1]]), NoPass, "English")], 40)
  \o FlattenSeq([j \in 1..(10 * Scale) |-> LET l == GoodSeq[(j % 13) + 1] ts == NearMisses(RndBytes("near", j, Sizes[(j % 5) + 1]), l)
        IN InHistories("snear" \o ToString(j) \o ".", [i \in DOMAIN ts |-> OSeed(ts[i], NoPass, l)], 40)])
  \o InHistories("sstretch", LET ts == Stretched("English") IN [i \in DOMAIN ts |-> OSeed(ts[i], NoPass, "English")], 20)
  \o InHistories("smany", LET ns == FlattenSeq([k \in 1..4 |-> [j \in 1..5 |-> 256 * k + <<12, 15, 18, 21, 24>>[j]]]) \o <<36, 48, 60, 96, 192, 384, 765, 768, 771, 1536, 2048>>      \* numbers of words that end like a good one
        IN [i \in DOMAIN ns |-> OSeed(Glue([j \in 1..ns[i] |-> WordList("English")[IF i % 2 = 0 THEN 1 ELSE ((j * j + i) % 2048) + 1]]), NoPass, "English")], 20)
  \o InHistories("ssame", LET ts == SameWords("English") IN [i \in DOMAIN ts |-> OSeed(ts[i], NoPass, "English")], 40)
  \o InHistories("sjunk", [i \in DOMAIN Junk |-> OSeed(Junk[i], Pick(Passphrases, "jp", i), GoodSeq[(i % 13) + 1])], 40)
  \o InHistories("slists", FlattenSeq([i \in DOMAIN BadSeq |-> LET t == PhraseOf(RndBytes("bl", i, Sizes[(i % 5) + 1]), WordList("English")) z == PhraseOf(Zeros(16), WordList("English"))
        IN << OSeed(t, NoPass, BadSeq[i]), OSeed(z, NoPass, BadSeq[i]), OSeed(<<>>, NoPass, BadSeq[i]) >>]), 20)
  \o InHistories("scross", FlattenSeq([i \in 1..9 |-> LET t == PhraseOf(RndBytes("cr", i, 16), WordList(GoodSeq[i])) IN [k \in 1..13 |-> OSeed(t, NoPass, GoodSeq[k])]]), 40)

(* --- very long texts ------------------------------------------------------------------------- *)
HugeSuite(z_) ==
  LET ts == << Fill(48, 20001), Fill(49, 20000), Fill(102, 65536), Fill(32, 50000), Fill(122, 6000), Chars("02") \o Fill(48, 30000), Chars("04") \o Fill(49, 40000), Repeat(Chars("abandon "), 6000), Fill(255, 40000), <<97>> \o Fill(32, 20000) \o <<97>>, Repeat(<<240, 159, 152, 128>>, 8000) >>
  IN  FlattenSeq([i \in DOMAIN ts |-> << H("huge" \o ToString(i), << OHex(1, ts[i], Main), OImpPub(1, ts[i], Main), OSeed(ts[i], NoPass, "English"), OCheck(ts[i]), OWif(1, ts[i], TestN),
        OSeed(PhraseOf(Zeros(16), WordList("English")), Plain(Take(ts[i], 5000)), "English") >>) >>])

(* --- random source --------------------------------------------------------------------------- *)
Script(s, ch) == [s |-> Hex(s), ch |-> ch]
FailAt(s, k, ch, e) == [s |-> Hex(s), ch |-> ch, fail |-> k, err |-> e]
RngStreams == << Fill(255, 32 * 300) \o RndBytes("st", 12, 32), Zeros(32 * 300) \o RndBytes("st", 13, 32), Repeat(Zeros(1) \o RndBytes("st", 14, 31), 120) \o RndBytes("st", 15, 32), FlattenSeq([j \in 1..150 |-> IF j % 3 = 0 THEN N ELSE IF j % 3 = 1 THEN Zeros(32) ELSE Fill(255, 32)]) \o RndBytes("st", 16, 32) >> \o [i \in 1..63 |->      \* every number of leading zero digits
                 LET r == RndBytes("lz", i, 32 - i \div 2) IN Zeros(i \div 2) \o (IF i % 2 = 1 THEN <<(r[1] % 15) + 1>> ELSE <<(r[1] % 128) + 16>>) \o Tail(r)] \o << Zeros(32 * 12) \o RndBytes("st", 8, 32), Fill(255, 32 * 12) \o RndBytes("st", 9, 32), Repeat(Zeros(1) \o RndBytes("st", 10, 31), 9) \o RndBytes("st", 11, 32), Repeat(N, 20), Zeros(1) \o RndBytes("st", 1, 31), Zeros(4) \o RndBytes("st", 2, 28), N, Sub(N, One), Sub(N, Two), Add(N, One), Fill(255, 32), Fill(255, 64) \o RndBytes("st", 3, 32), Zeros(32), Zeros(31) \o <<1>>, Zeros(64), <<15>> \o RndBytes("st", 4, 31), Sub(N, <<3>>), HalfN, N \o N \o N \o RndBytes("st", 5, 32), Zeros(16) \o RndBytes("st", 6, 16), RndBytes("st", 7, 16) \o Zeros(16) >>
             \o [i \in 1..(10 * Scale) |-> RndBytes("str", i, 32)]
RngKeySuite(z_) ==
  [i \in DOMAIN RngStreams |-> LET s == RngStreams[i] n == NetAt(i) IN
     Solo(H("rng" \o ToString(i), << WithRng(OGen(1, n), Script(s, 0)), WithRng(OGen(2, n), Script(s, 0)), WithRng(OGen(3, n), Script(s, 1)), WithRng(OGen(4, n), Script(s, 7)), WithRng(OGen(5, n), Script(s, 31)),
           OWifOf(6, 1, n), OHexOf(7, 1, n, 1), OGen(8, n), OGen(9, n), OAdd(10, 8, 9), WithRng(OGen(11, n), Script(s, 0)) >>))]
  \o [i \in 1..41 |-> LET s == RndBytes("fail", i, 32) n == NetAt(i) IN      \* a failure after i-1 bytes
     H("fail" \o ToString(i), << WithRng(OGen(1, n), FailAt(s, i - 1, 0, "")), WithRng(OGen(2, n), FailAt(s, i - 1, 1, "eof")), WithRng(OGen(3, n), Script(s, 0)), WithRng(OGen(4, n), FailAt(s, i - 1, 5, "eof")), WithRng(OGen(5, n), Script(s, 0)) >>)]
  \o [i \in 1..5 |-> LET s == Fill(255, 32) \o RndBytes("failff", i, 32) IN H("failretry" \o ToString(i), << WithRng(OGen(1, Main), FailAt(s, 31 + i, 0, IF i % 2 = 0 THEN "eof" ELSE "")) >>)]
  \o [i \in 1..(9 * Scale) |-> H("sens" \o ToString(i), << [op |-> "Sens", of |-> "Gen", n |-> NetAt(i), rng |-> Script(RndBytes("sens", i, 32), <<0, 1, 9>>[(i % 3) + 1])] >>)]
  \o LET t == RndBytes("rej", 1, 31) ss == << Zeros(32 * 40), Fill(255, 32 * 40), Repeat(Zeros(1) \o t, 40) >>
     IN  [i \in DOMAIN ss |-> H("reject" \o ToString(i), << [op |-> "Sens", of |-> "Gen", loose |-> TRUE, n |-> NetAt(i), rng |-> Script(ss[i] \o RndBytes("rejt", i, 32), 0)] >>)]
  \o [i \in 1..(2 * Scale) |-> H("bits" \o ToString(i), << [op |-> "Bits", of |-> "Gen", n |-> NetAt(i), count |-> 72, rng |-> Script(RndBytes("bits", i, 32), <<0, 1>>[(i % 2) + 1])] >>)]
  \o InHistories("genmany", [i \in 1..(200 * Scale) |-> OGen(1, NetAt(i))], 40)
  \o LongGen(0) \o LongScripts(0)
RngMnemSuite(z_) ==
  LongMnem(0) \o LongMnemScripts(0) \o FlattenSeq([j \in 1..5 |-> LET n == Sizes[j] w == (n * 3) \div 4 l == GoodSeq[((j * 3) % 9) + 1] IN
     [i \in 1..14 |-> LET s == IF i <= 8 THEN Take(RngStreams[i] \o RndBytes("pad", i, 32), 32) ELSE RndBytes("ms", j * 100 + i, 32) IN
        Solo(H("mrng" \o ToString(n) \o "-" \o ToString(i), << WithRng(OMnem(1, w, l), Script(s, 0)), WithRng(OMnem(2, w, l), Script(s, 0)), WithRng(OMnem(3, w, l), Script(s, 1)), WithRng(OMnem(4, w, l), Script(s, 7)), OMnem(5, w, l), WithRng(OMnem(6, w, l), Script(s, 0)) >>))]
     \o [i \in 1..(n + 3) |-> LET s == RndBytes("mf", j * 100 + i, 32) IN
        H("mfail" \o ToString(n) \o "-" \o ToString(i), << WithRng(OMnem(1, w, l), FailAt(s, i - 1, 0, "")), WithRng(OMnem(2, w, l), FailAt(s, i - 1, 1, "eof")), WithRng(OMnem(3, w, l), Script(s, 0)), WithRng(OMnem(4, w, l), FailAt(s, i - 1, 5, "")), WithRng(OMnem(5, w, l), Script(s, 0)) >>)]
     \o [i \in 1..(2 * Scale) |-> H("msens" \o ToString(n) \o "-" \o ToString(i), << [op |-> "Sens", of |-> "Mnem", w |-> w, list |-> l, rng |-> Script(RndBytes("msens", j * 100 + i, 32), <<0, 1>>[(i % 2) + 1])] >>)]
     \o [i \in 1..Scale |-> H("mbits" \o ToString(n) \o "-" \o ToString(i), << [op |-> "Bits", of |-> "Mnem", w |-> w, list |-> l, count |-> 72, rng |-> Script(RndBytes("mbits", j * 100 + i, 32), 0)] >>)]])
  \o FlattenSeq([q \in DOMAIN GoodSeq |-> [j \in 1..5 |-> LET n == Sizes[j] w == (n * 3) \div 4 l == GoodSeq[q] s == RndBytes("mlist", q * 10 + j, 32) IN      \* every list with every length
        H("mlist" \o ToString(q) \o "-" \o ToString(n), << [op |-> "Sens", of |-> "Mnem", w |-> w, list |-> l, rng |-> Script(s, (q + j) % 3)] >> \o (IF Scale > 1 \/ (q + j + RndInt("mlb", 0, 5)) % 5 = 0 THEN << [op |-> "Bits", of |-> "Mnem", w |-> w, list |-> l, count |-> 72, rng |-> Script(s, 0)] >> ELSE <<>>)
          \o << WithRng(OMnem(1, w, l), FailAt(s, RndInt("mlf", q * 10 + j, n), (q + j) % 2, IF q % 2 = 0 THEN "eof" ELSE "")), WithRng(OMnem(2, w, l), Script(s, 0)) >>)]])

(* --- concurrency ------------------------------------------------------------------------------ *)
(* keys 1..4 are shared; a thread keeps its own results from 10 on *)
ParPrelude(i) == LET n == NetAt(i) k(j) == IF j = 4 THEN One ELSE RndScalar("par", i * 10 + j) IN
  << OHex(1, HexOf(k(1)), n), OHex(2, HexOf(k(2)), n), OHex(3, HexOf(k(3)), n), OHex(4, HexOf(k(4)), n), OPub(1, 1), OPub(2, 2), OPubOf(3, 1, TRUE, n, 0), OPub(4, 4), WithRng(OMnem(1, 12, "English"), Stream(RndBytes("parm", i, 16))) >>
ParOps(i, tag) ==
  LET n == NetAt(i) r(x) == RndInt(tag, i * 100 + x, 1000) k == RndScalar(tag, i) p == PubOf(k, NetV(n)) a == 1 + (r(1) % 4) b == 1 + (r(2) % 4) c == (r(3) % 2 = 0)
      l == GoodSeq[(r(4) % 9) + 1]
      t == PhraseOf(RndBytes(tag, i, 16), WordList(l))
      all == << OAdd(10, a, b), OMul(11, a, b), OPub(10, a), OPubOf(11, 1, c, n, i), OImpPub(12, FormatR(p, TRUE), n), OImpPub(13, FormatR(p, FALSE), n), OFormat(b, c), OAddr(a, c), OAddPub(14, a, b, c),
                OHex(12, HexOf(k), n), OWif(13, WifOf(k, NetV(n)), n), OWifOf(14, a, n), OHexOf(15, b, n, i), OCheck(WifOf(k, NetV(n))), OGen(16, n), OMnem(10, 12, l), OSeed(t, Plain(Chars("x")), l), OSeedOf(1, NoPass, "English", TRUE), OPub(15, 12), OAddPub(16, 15, a, c) >>
  IN  [x \in 1..8 |-> all[(r(10 + x) % Len(all)) + 1]]
(* some histories run one kind of call on all threads *)
ParSame(i) ==
  LET n == NetAt(i) k == RndScalar("same", i) p == PubOf(k, NetV(n)) l == GoodSeq[(i % 9) + 1]
      t(j) == PhraseOf(RndBytes("same", i * 10 + j, 16), WordList(l))
      kinds == << <<OPub(10, 1)>>, <<OImpPub(10, FormatR(p, TRUE), n)>>, <<OImpPub(10, FormatR(p, FALSE), n)>>, <<OAdd(10, 1, 2)>>, <<OMul(10, 1, 2)>>, <<OFormat(1, TRUE), OFormat(1, FALSE)>>, <<OAddr(1, TRUE), OAddr(1, FALSE)>>, <<OAddPub(10, 1, 2, TRUE), OAddPub(11, 1, 1, FALSE)>>,
                  <<OHex(10, HexOf(k), n)>>, <<OWif(10, WifOf(k, NetV(n)), n)>>, <<OCheck(WifOf(k, NetV(n)))>>, <<OGen(10, n)>>, <<OMnem(10, 12, l)>>, <<OSeed(t(1), Plain(Chars("a")), l)>>, <<OPub(10, 4), OPub(11, 2)>> >>
      x == kinds[((i - 1) % Len(kinds)) + 1]
      y == kinds[((i - 1 + RndInt("samey", i, Len(kinds))) % Len(kinds)) + 1]
  IN  [th \in 1..4 |-> IF th <= 2 THEN x \o x ELSE x \o y]
(* the same kind of call on all threads, each with its own arguments, repeated without pause *)
HammerPrelude(i) == LET n == NetAt(i) IN FlattenSeq([j \in 1..4 |-> LET k == RndScalar("ham", i * 10 + j) IN << OHex(j, HexOf(k), n), OPubLit(j, PubOf(k, NetV(n)), n) >>])
HammerOps(i, kind, th) ==
  LET n == NetAt(i) k == RndScalar("hamk", i * 10 + th) p == PubOf(k, NetV(n)) m == NetAt(i + th) c == (th % 2 = 0) nx == (th % 4) + 1 pr == IF th % 2 = 1 THEN th + 1 ELSE th - 1
      l == GoodSeq[((i + th) % 9) + 1] w == WifOf(k, NetV(m))
  IN  CASE kind = 1 -> << OFormat(th, FALSE), OFormat(nx, FALSE) >> [] kind = 2 -> << OFormat(th, TRUE), OFormat(nx, FALSE) >> [] kind = 3 -> << OAddr(th, c), OAddr(nx, ~c) >>
        [] kind = 4 -> << OAddPub(10, th, nx, c) >> [] kind = 5 -> << OAdd(10, th, pr) >> [] kind = 6 -> << OMul(10, th, pr) >> [] kind = 7 -> << OAdd(10, th, nx), OMul(10, nx, th) >>
        [] kind = 8 -> << OHex(10, HexOf(k), m) >> [] kind = 9 -> << OWif(10, w, m), OWif(10, w, NetAt(i + th + 1)) >> [] kind = 10 -> << OCheck(w), OCheck(Swap(w, 10 + th)) >>
        [] kind = 11 -> << OImpPub(10, FormatR(p, TRUE), m) >> [] kind = 12 -> << OImpPub(10, FormatR(p, FALSE), m), OImpPub(10, Del(FormatR(p, FALSE), 5), m) >>
        [] kind = 13 -> << OSeed(PhraseOf(RndBytes("hams", i * 10 + th, Sizes[(th % 5) + 1]), WordList(l)), Plain(Chars(<<"a", "b", "c", "d">>[th])), l) >> [] kind = 14 -> << OPub(10, th) >>
        [] kind = 15 -> << OAdd(10, th, pr), OHex(11, HexOf(k), m) >> [] kind = 16 -> << OSeed(Glue([j \in 1..12 |-> WordList(l)[th * 100 + j]]), NoPass, l) >>
        [] kind = 17 -> << OGen(10, m) >> [] OTHER -> << OMnem(10, (Sizes[(th % 5) + 1] * 3) \div 4, l) >>
ParHH(id, pre, par) == [id |-> id, solo |-> FALSE, full |-> FALSE, hammer |-> 3000, ops |-> pre, par |-> par]
HammerKinds == 18
ParHammer(z_) ==
  [i \in 1..HammerKinds |-> ParHH("hammer" \o ToString(i), HammerPrelude(i), [th \in 1..4 |-> HammerOps(i, i, th)])]
  \o [i \in 1..(6 * Scale) |-> LET a == 1 + RndInt("hma", i, HammerKinds) b == 1 + RndInt("hmb", i, HammerKinds) IN ParHH("mixed" \o ToString(i), HammerPrelude(i + 50), [th \in 1..4 |-> HammerOps(i + 50, IF th <= 2 THEN a ELSE b, th)])]
ParH(id, pre, par) == [id |-> id, solo |-> FALSE, full |-> FALSE, ops |-> pre, par |-> par]
ParSuite(z_) ==
  ParHammer(0) \o
  [i \in 1..30 |-> ParH("parsame" \o ToString(i), ParPrelude(i), ParSame(i))]
  \o [i \in 1..(24 * Scale) |-> ParH("par" \o ToString(i), ParPrelude(100 + i), [th \in 1..5 |-> ParOps(i * 10 + th, "pt")])]

IsAscii(t) == \A i \in DOMAIN t : t[i] < 128
(* --- characters that look like others, or like nothing ----------------------------------------------- *)
OddMarks == << <<32>>, <<9>>, <<10>>, <<11>>, <<13>>, <<13, 10>>, <<0>>, <<127>>, <<133>>, <<194, 133>>, <<194, 160>>, <<227, 128, 128>>, <<226, 128, 168>>, <<226, 128, 175>>, <<239, 187, 191>>,
               <<226, 128, 139>>, <<226, 128, 141>>, <<226, 129, 160>>, <<194, 173>>, <<204, 129>>, <<255>>, <<195>>, <<240, 159, 152, 128>>, <<45>>, <<43>>, <<95>>, <<46>>, <<44>>, <<58>>, <<59>>, <<34>>, <<39>>, <<96>>, <<40>>, <<47>>, <<92>>, <<35>>, <<61>>, <<37>>, <<38>>,
               Chars("0x"), Chars("0X"), Chars("0b"), Chars("0o"), Chars("x"), Chars("h"), Chars("l"), Chars("I"), Chars("O"), Chars("0"), Chars("1"), Chars("z"), Chars("g"),
               <<239, 188, 145>>, <<239, 189, 129>>, <<217, 161>>, <<194, 185>>, <<196, 177>>, <<226, 132, 170>>, <<197, 191>>, <<208, 176>> >>
(* characters and what is taken for them *)
Lookalike == << <<49, <<108>> >>, <<49, <<73>> >>, <<111, <<48>> >>, <<111, <<79>> >>, <<48, <<79>> >>, <<48, <<111>> >>, <<49, <<239, 188, 145>> >>, <<48, <<239, 188, 144>> >>, <<53, <<239, 188, 149>> >>, <<97, <<239, 189, 129>> >>, <<97, <<208, 176>> >>, <<101, <<208, 181>> >>,
                <<49, <<217, 161>> >>, <<50, <<194, 178>> >>, <<75, <<226, 132, 170>> >>, <<107, <<226, 132, 170>> >>, <<115, <<197, 191>> >>, <<105, <<196, 177>> >>, <<32, <<194, 160>> >>, <<32, <<227, 128, 128>> >>, <<32, <<9>> >>, <<32, <<10>> >>, <<32, <<32, 32>> >>, <<32, <<44, 32>> >> >>
Replaced(t, from, to) == FlattenSeq([j \in DOMAIN t |-> IF t[j] = from THEN to ELSE <<t[j]>>])
ReplacedOnce(t, from, to) == LET at == SelectInSeq(t, LAMBDA c : c = from) IN IF at = 0 THEN t ELSE SubSeq(t, 1, at - 1) \o to \o SubSeq(t, at + 1, Len(t))
Twists(t) ==
  LET n == Len(t) h == n \div 2
  IN  FlattenSeq([j \in DOMAIN OddMarks |-> LET c == OddMarks[j] k == Len(c) IN
        << c \o t, t \o c, c \o t \o c, Take(t, h) \o c \o SubSeq(t, h + 1, n), c \o Tail(t), Take(t, n - 1) \o c, Take(t, h) \o c \o SubSeq(t, h + 2, n),
           c \o SubSeq(t, k + 1, n), Take(t, n - k) \o c, Take(t, h) \o c \o SubSeq(t, h + k + 1, n), Take(t, 2) \o c \o SubSeq(t, 3, n) >>])
      \o FlattenSeq([j \in DOMAIN Lookalike |-> << Replaced(t, Lookalike[j][1], Lookalike[j][2]), ReplacedOnce(t, Lookalike[j][1], Lookalike[j][2]) >>])
      \o << Upper(t), Lower(t), t \o t, <<40>> \o t \o <<41>>, <<91>> \o t \o <<93>>, <<60>> \o t \o <<62>> >>
TwistKeys(z_) ==
  LET net == Main
      hex == Twists(HexOf(RndScalar("tw", 1))) wifs == Twists(WifOf(RndScalar("tw", 1), NetV(net))) \o Twists(CompressedWifOf(RndScalar("tw", 3), NetV(net)))
  IN  InHistories("twhex", [j \in DOMAIN hex |-> OHex(1, hex[j], NetAt(j))], 40)
      \o InHistories("twwif", FlattenSeq([j \in DOMAIN wifs |-> << OCheck(wifs[j]), OWif(1, wifs[j], net) >>]), 60)
TwistPubs(z_) ==
  LET p == PubOf(RndScalar("tw", 4), NetV(Main))
      pubs == Twists(FormatR(p, TRUE)) \o Twists(FormatR(p, FALSE))
  IN  InHistories("twpub", [j \in DOMAIN pubs |-> OImpPub(1, pubs[j], NetAt(j))], 40)
TwistSeeds(z_) ==
  LET e == RndBytes("tw", 2, 16) ph(l) == PhraseOf(e, WordList(l))
      lists == << "English", GoodSeq[2 + RndInt("twl", 1, 8)] >>
      pw == Twists(Chars("Pass 1ok"))
  IN  FlattenSeq([q \in 1..2 |-> LET t == Twists(ph(lists[q])) IN InHistories("twphrase" \o ToString(q) \o ".", [j \in DOMAIN t |-> OSeed(t[j], NoPass, lists[q])], 40)])
      \o InHistories("twpass", [j \in 1..(Len(pw) \div 3) |-> LET t == pw[3 * j - RndInt("twp", j, 3)] IN OSeed(ph("English"), IF IsAscii(t) THEN Plain(t) ELSE NoPass, "English")], 20)

(* --- what the code itself names ------------------------------------------------------------------- *)
(* VERIF_DICT has the constants that occur in the source of the library:   *)
(* texts, numbers, and small integers.  A condition on a constant is met   *)
(* by a value made of it.                                                  *)
DictTexts(z_) ==
  LET ts == [i \in DOMAIN Dict.texts |-> Unhex(Dict.texts[i])]
      e == RndBytes("dt", 0, 16) ws == WordsOf(PhraseOf(e, WordList("English"))) ph == Glue(ws)
      rh(i, n) == SubSeq(HexEncode(RndBytes("dth", i, 32)), 1, n)
      (* a WIF that starts with the text *)
      starting(t, n) == LET b == Base58Decode(t \o Fill(104, n - Len(t))) IN IF Len(b) > 33 THEN B58C(SubSeq(b, 1, IF n > 51 THEN 34 ELSE 33)) ELSE t
  IN  FlattenSeq([i \in DOMAIN ts |-> LET t == ts[i] IN InHistories("dict" \o ToString(i) \o ".",
        << OCheck(t), OWif(1, t, Main), OHex(1, t, Main), OImpPub(1, t, Main), OSeed(t, NoPass, "English"), OSeed(Glue([ws EXCEPT ![3] = t]), NoPass, "English"), OSeed(ph \o <<32>> \o t, NoPass, "English") >>
        \o (IF IsAscii(t) THEN << OSeed(ph, Plain(t), "English"), OSeed(ph, Plain(<<120>> \o t), "English"), OSeed(ph, Plain(t \o <<120>>), "English") >> ELSE <<>>)
        \o (IF IsHexText(t) /\ Len(t) <= 64
            THEN << OHex(1, Fill(48, 64 - Len(t)) \o t, Main), OHex(1, t \o Fill(48, 64 - Len(t)), Main), OHex(1, t \o rh(i, 64 - Len(t)), Main), OWifOf(2, 1, Main), OHex(1, rh(i, 64 - Len(t)) \o t, Main), OWifOf(2, 1, Main), OPub(1, 1) >>
                 \o FlattenSeq([j \in 1..3 |-> << OImpPub(1, <<48, 50 + (j % 2)>> \o t \o rh(50 * i + j, 64 - Len(t)), Main), OFormat(1, FALSE), OAddr(1, TRUE), OImpPub(2, <<48, 50 + (j % 2)>> \o rh(50 * i + j, 64 - Len(t)) \o t, Main), OFormat(2, FALSE), OAddr(2, TRUE), OAddPub(3, 1, 2, TRUE) >>])
            ELSE <<>>)
        \o (IF IsB58Text(t) /\ Len(t) <= 51
            THEN FlattenSeq([m \in 1..2 |-> LET w == starting(t, 50 + m) IN << OCheck(w), OWif(1, w, Main), OWif(2, w, TestN), OWifOf(3, 1, Main), OHexOf(4, 1, Main, 0) >>])
            ELSE <<>>), 60)])
DictNums(z_) ==
  LET ns == [i \in DOMAIN Dict.nums |-> Strip(Unhex(Dict.nums[i]))]
      around(n, i) == SelectSeq(<< n, Add(n, One), IF n = <<>> THEN n ELSE Sub(n, One), IF InRange(n) THEN Minus(n) ELSE n,
                                   n \o RndBytes("dnt", i, 32 - Len(n)), Strip(RndBytes("dnb", i, 32 - Len(n)) \o n), n \o Zeros(32 - Len(n)) >>, InRange)
      keys(n, i) == LET ks == around(n, i) IN [j \in DOMAIN ks |-> LET k == ks[j] r == RndScalar("dnr", i * 10 + j) c == j % 2 = 0 net == NetAt(i + j) IN
          H("dictn" \o ToString(i) \o "-" \o ToString(j),
            << OHex(1, Recase(HexOf(k), j), net), OWifOf(2, 1, net), OPub(1, 1), OFormat(1, c), OAddr(1, c), OHex(2, HexOf(r), net), OAdd(3, 1, 2), OMul(4, 2, 1),
               OHex(5, HexOf(ModSub(k, r, N)), net), OAdd(6, 5, 2), OHex(7, HexOf(ModMul(k, ModInv(r, N), N)), net), OMul(8, 2, 7), OWif(9, CompressedWifOf(k, NetV(net)), net) >>)]
      xs(n, i) == SelectSeq(<< n >> \o [j \in 1..4 |-> n \o RndBytes("dxt", 10 * i + j, 32 - Len(n))] \o [j \in 1..4 |-> Strip(RndBytes("dxb", 10 * i + j, 32 - Len(n)) \o n)],
                            LAMBDA x : Lt(x, P) /\ HasX(x, B, P))
      points(n, i) == LET x == xs(n, i) IN [j \in DOMAIN x |-> LET p == LiftX(x[j], j % 2 = 1, B, P) pt == [x |-> p[1], y |-> p[2]] net == NetAt(i + j) IN
          H("dictx" \o ToString(i) \o "-" \o ToString(j),
            << OImpPub(1, <<48, 50 + (j % 2)>> \o HexOf(x[j]), net), OFormat(1, TRUE), OFormat(1, FALSE), OAddr(1, TRUE), OAddr(1, FALSE), OPubOf(2, 1, FALSE, net, j), OPubLit(3, PubOf(RndScalar("dxp", i * 10 + j), NetV(net)), net), OAddPub(4, 1, 3, TRUE), OAddPub(5, 3, 1, FALSE), OAddPub(6, 1, 1, TRUE) >>)]
  IN  FlattenSeq([i \in DOMAIN ns |-> IF Len(ns[i]) > 32 THEN <<>> ELSE keys(ns[i], i) \o points(ns[i], i)])
DictInts(z_) ==
  LET ph == PhraseOf(RndBytes("di", 0, 16), WordList("English"))
  IN  FlattenSeq([i \in DOMAIN Dict.ints |-> LET n == Dict.ints[i] IN InHistories("dicti" \o ToString(i) \o ".",
        << OMnem(1, n, "English"), OMnem(1, n + 1, "English"), OMnem(1, n - 1, "English"), OCheck(Fill(49, n)), OWif(1, Fill(49, n + 1), Main), OHex(1, Fill(97, n), Main), OHex(1, Fill(97, n + 1), Main),
           OImpPub(1, <<48, 50>> \o Fill(97, n), Main), OImpPub(1, Fill(48, n + 1), Main), OSeed(ph, Plain(Fill(97, n)), "English"), OSeed(ph, Plain(Fill(97, n + 1)), "English") >>
        \o (IF n > 0 THEN << OSeed(ph, Plain(Fill(97, n - 1)), "English"), OSeed(Fill(97, n), NoPass, "English") >> ELSE <<>>)
        \o (IF n <= 300 THEN << OSeed(Glue([j \in 1..n |-> WordList("English")[((j * 7) % 2048) + 1]]), NoPass, "English") >> ELSE <<>>), 40)])
DictSuite(z_) == DictTexts(0) \o DictNums(0) \o DictInts(0)

----------------------------------------------------------------------------
Suite(s) ==
  CASE s = "hex" -> HexSuite(0) [] s = "badhex" -> BadHexSuite(0) [] s = "wif" -> WifSuite(0) [] s = "net" -> NetSuite(0)
    [] s = "arith" -> ArithSuite(0) [] s = "pub" -> PubSuite(0) [] s = "addr" -> AddrSuite(0) [] s = "pubadd" -> PubAddSuite(0)
    [] s = "badpub" -> BadPubSuite(0) [] s = "mnem" -> MnemSuite(0) [] s = "seed" -> SeedSuite(0) [] s = "badseed" -> BadSeedSuite(0)
    [] s = "bare" -> BareSuite(0) [] s = "alias" -> AliasSuite(0) [] s = "mutable" -> MutableSuite(0) [] s = "long" -> LongSuite(0)
    [] s = "points" -> PointSuite(0) [] s = "hold" -> HoldSuite(0) [] s = "huge" -> HugeSuite(0) [] s = "words" -> SeedWords(0)
    [] s = "mwords" -> MnemWords(0) [] s = "prefix" -> PrefixSuite(0) [] s = "wipe" -> WipeSuite(0) [] s = "dict" -> DictSuite(0) [] s = "twkeys" -> TwistKeys(0) [] s = "twpubs" -> TwistPubs(0) [] s = "twseeds" -> TwistSeeds(0) [] s = "rngkey" -> RngKeySuite(0) [] s = "rngmnem" -> RngMnemSuite(0) [] s = "par" -> ParSuite(0)

SuiteNames == JsonDeserialize(IOEnv.VERIF_SUITES)
VARIABLE done
GInit == /\ done = FALSE /\ priv = <<>> /\ pub = <<>> /\ out = Err
GNext == /\ ~done /\ done' = TRUE /\ UNCHANGED <<priv, pub, out>>
         /\ ndJsonSerialize(IOEnv.VERIF_OPS, FlattenSeq([i \in DOMAIN SuiteNames |-> Suite(SuiteNames[i])]))
=============================================================================
