------------------------------- MODULE Sweep --------------------------------
(***************************************************************************)
(* Long runs of the real library, judged in blocks.  Item i of a kind is a *)
(* short sequence of calls whose arguments follow from the seed and i; its *)
(* record is the arguments and the responses that BtcKeys gives, written   *)
(* as bytes.  The driver performs the items one after another in one       *)
(* process and writes the records that it observes.  Each block of records *)
(* is compared by its SHA-256: here a state is a block, and the step       *)
(* computes what the block has to be.  The observed calls of a block that  *)
(* differs are then judged one by one by Trace.tla.                        *)
(***************************************************************************)
EXTENDS Inputs

Blocks == ndJsonDeserialize(IOEnv.VERIF_SWEEP)     \* [kind, from, n, sum], or [kind, from, n, sum, args]

(* --- records ---------------------------------------------------------------- *)
Field(f) == <<Len(f) \div 256, Len(f) % 256>> \o f
OkMark == Field(Chars("ok"))
ErrMark == Field(Chars("err"))
PrivKey(k) == Field(k.k) \o Field(k.hex) \o Field(k.wif) \o Field(k.net.pk) \o Field(k.net.ph)
PubKey(k) == Field(k.x) \o Field(k.y) \o Field(k.net.pk) \o Field(k.net.ph)
PrivAns(r) == IF IsOk(r) THEN OkMark \o PrivKey(r.key) ELSE ErrMark
PubAns(r) == IF IsOk(r) THEN OkMark \o PubKey(r.key) ELSE ErrMark
TextAns(r) == IF IsOk(r) THEN OkMark \o Field(r.txt) ELSE ErrMark
BoolAns(b) == OkMark \o Field(IF b THEN <<1>> ELSE <<0>>)
Skipped == Field(Chars("skip"))

(* --- arguments -------------------------------------------------------------- *)
D(kind, i, j) == Rnd("sweep-" \o kind \o ToString(j), i)
SNets == [j \in 1..5 |-> NetV(<<Main, TestN, NetR("ltc", "B0", "30"), NetR("aB", "aB", "Cd"), NetR("zero", "00", "FF")>>[j])]
SNet(i) == SNets[(i % 5) + 1]
(* every other number has a run of equal bytes *)
Shape(i, d, e) ==
  IF i % 2 = 0 THEN d
  ELSE LET a == e[1] % 32 n == 1 + (e[2] % (32 - a)) v == <<0, 255, 128, 1>>[(e[3] % 4) + 1]
       IN  [j \in 1..32 |-> IF j > a /\ j <= a + n THEN v ELSE d[j]]
CaseOf(t, i) == IF i % 3 = 0 THEN Upper(t) ELSE t

PrivItem(i) ==
  LET e == D("priv", i, 2) t == CaseOf(HexEncode(Shape(i, D("priv", i, 1), e)), i) net == SNet(i) r == ImportHexR(t, net)
  IN  Field(t) \o PrivAns(r) \o
      IF ~IsOk(r) THEN <<>>
      ELSE LET w == r.key.wif cw == CompressedWifOf(r.key.k, net)
               bad == [w EXCEPT ![(e[4] % Len(w)) + 1] = Alphabet[(e[5] % 58) + 1]] other == SNet(i + 1 + (e[6] % 4))
           IN  PrivAns(ImportWifR(w, net)) \o BoolAns(CheckWifR(w)) \o Field(cw) \o PrivAns(ImportWifR(cw, net))
               \o Field(bad) \o BoolAns(CheckWifR(bad)) \o PrivAns(ImportWifR(bad, net)) \o PrivAns(ImportWifR(w, other))

(* independent numbers, and numbers with a small sum or product *)
ArithItem(i) ==
  LET e == D("arith", i, 3) a == Strip(Shape(i, D("arith", i, 1), e)) c == i % 8 small == Strip(<<e[8]>>) net == SNet(i)
  IN  IF ~InRange(a) THEN Skipped
      ELSE LET b == CASE c = 5 -> ModSub(small, a, N) [] c = 6 -> ModMul(small, ModInv(a, N), N) [] OTHER -> Strip(Shape(i \div 2, D("arith", i, 2), D("arith", i, 4)))
           IN  IF ~InRange(b) THEN Skipped
               ELSE LET p == PrivOf(a, net) q == PrivOf(b, net)
                    IN  Field(a) \o Field(b) \o PrivAns(OkKey(p)) \o PrivAns(OkKey(q))
                        \o PrivAns(AddPrivR(p, q)) \o PrivKey(p) \o PrivKey(q) \o PrivAns(MulPrivR(p, q)) \o PrivKey(p) \o PrivKey(q)      \* the operands stay

PointItem(i) ==
  LET e == D("point", i, 2) net == SNet(i) t == CaseOf(HexEncode(<<2 + (e[4] % 2)>> \o Shape(i, D("point", i, 1), e)), i) r == ImportPubR(t, net)
  IN  Field(t) \o PubAns(r) \o
      IF ~IsOk(r) THEN <<>>
      ELSE LET u == FormatR(r.key, FALSE) bad == [u EXCEPT ![3 + (e[5] % 128)] = HexDigits[(e[6] % 16) + 1]]
           IN  TextAns(OkText(FormatR(r.key, TRUE))) \o TextAns(OkText(u)) \o TextAns(OkText(AddressR(r.key, TRUE))) \o TextAns(OkText(AddressR(r.key, FALSE)))
               \o PubKey(r.key) \o PubAns(ImportPubR(u, net)) \o Field(bad) \o PubAns(ImportPubR(bad, net))

Liftable(x) == Lt(x, P) /\ HasX(x, B, P)
PointFrom(kind, i) ==      \* the first of eight numbers that is the x of a point
  LET xs == SelectSeq([j \in 1..8 |-> Strip(D(kind, i, j))], Liftable)
  IN  IF xs = <<>> THEN Infinity ELSE LiftX(xs[1], D(kind, i, 9)[1] % 2 = 1, B, P)
CubeRoot == Unhex("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee")
AddItem(i) ==
  LET p == PointFrom("adda", i) q0 == PointFrom("addb", i) c == i % 8
  IN  IF p = Infinity \/ q0 = Infinity THEN Skipped
      ELSE LET q == CASE c = 5 -> EcNeg(p, P) [] c = 6 -> p [] c = 7 -> <<ModMul(p[1], CubeRoot, P), p[2]>> [] OTHER -> q0
               net == SNet(i) a == [x |-> p[1], y |-> p[2], net |-> net] b == [x |-> q[1], y |-> q[2], net |-> net]
           IN  Field(a.x) \o Field(a.y) \o Field(b.x) \o Field(b.y) \o PubAns(AddPubR(a, b)) \o PubKey(a) \o PubKey(b) \o PubAns(AddPubR(b, a)) \o PubKey(b) \o PubKey(a)

PubItem(i) ==
  LET k == Strip(Shape(i, D("pub", i, 1), D("pub", i, 2))) a == [k |-> k, hex |-> <<>>, wif |-> <<>>, net |-> SNet(i)]
  IN  Field(k) \o PubAns(PubR(a)) \o PrivKey(a)

SweepLists == << "English", "French", "Japanese", "Italian", "Spanish", "Korean", "Czech", "ChineseTraditional", "ChineseSimplified" >>
SeedItem(i) ==
  LET d == D("seed", i, 1) e == D("seed", i, 2) l == WordList(SweepLists[(i % 9) + 1]) ent == SubSeq(Shape(i, d, e), 1, Sizes[(i % 5) + 1])
      t == PhraseOf(ent, l) pass == SubSeq(HexEncode(D("seed", i, 3)), 1, IF e[4] > 127 THEN 0 ELSE e[4] % 40)
      ix == EntropyToIndices(ent, CR, WB)
      u == Join([j \in DOMAIN ix |-> l[(IF j = 1 + (e[5] % Len(ix)) THEN (e[6] % 8) * 256 + e[7] ELSE ix[j]) + 1]], <<Space>>)
  IN  Field(t) \o Field(pass) \o TextAns(SeedR(t, pass, l)) \o Field(u) \o TextAns(SeedR(u, <<>>, l))

Item(kind, i) == CASE kind = "priv" -> PrivItem(i) [] kind = "arith" -> ArithItem(i) [] kind = "point" -> PointItem(i)
                   [] kind = "add" -> AddItem(i) [] kind = "pub" -> PubItem(i) [] kind = "seed" -> SeedItem(i)
BlockSumD(kind, seed, lists, from, n) == Sha256(FlattenSeq([j \in 1..n |-> Item(kind, from + j - 1)]))
(* with a java evaluator, which gets the seed and the lists as arguments *)
BlockSum(kind, seed, lists, from, n) == BlockSumD(kind, seed, lists, from, n)
(* Items whose result is drawn from the random source: the scalar, or the  *)
(* entropy, that was observed is given, and the record follows from it.    *)
GenItem(i, k) == IF InRange(Strip(k)) THEN PrivAns(OkKey(PrivOf(Strip(k), SNet(i)))) ELSE Skipped
PhraseItem(i, e) == IF Len(e) = Sizes[((i \div 9) % 5) + 1] THEN TextAns(OkText(PhraseOf(e, WordList(SweepLists[(i % 9) + 1])))) ELSE Skipped
DrawnSumD(kind, lists, from, args) == Sha256(FlattenSeq([j \in DOMAIN args |-> IF kind = "gen" THEN GenItem(from + j - 1, args[j]) ELSE PhraseItem(from + j - 1, args[j])]))
DrawnSum(kind, lists, from, args) == DrawnSumD(kind, lists, from, args)

SweepWords == [j \in 1..9 |-> WordList(SweepLists[j])]

(* --- the machine ------------------------------------------------------------ *)
VARIABLES blk, verdict
SwInit == Init /\ blk \in DOMAIN Blocks /\ verdict = "open"
SwNext == /\ verdict = "open" /\ UNCHANGED <<priv, pub, out, blk>>
          /\ LET b == Blocks[blk]
                 sum == IF "args" \in DOMAIN b THEN DrawnSum(b.kind, SweepWords, b.from, [j \in DOMAIN b.args |-> Unhex(b.args[j])])
                        ELSE BlockSum(b.kind, Seed, SweepWords, b.from, b.n)
                 good == sum = Unhex(b.sum)
             IN  /\ verdict' = (IF good THEN "same" ELSE "differs")
                 /\ (~good => PrintT(<<"BLOCK", blk>>))
SwSpec == SwInit /\ [][SwNext]_<<priv, pub, out, blk, verdict>>
=============================================================================
