-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* Long behaviours of BtcKeys with its real constants, to be replayed on   *)
(* the library.  Every step is an action of BtcKeys (or something a caller *)
(* does to keys it holds); which one is decided by the seed, the number of *)
(* the walk and the step.  A walk uses a small world of related values, so *)
(* that calls meet each other's leftovers: numbers that share their upper  *)
(* or lower half, a number and its negative, one point with both signs,    *)
(* networks that differ in one byte only or not at all, phrases that are   *)
(* prefixes of each other, keys overwritten in place after use.            *)
(* The invariants of BtcKeys are checked on every state on the way.        *)
(***************************************************************************)
EXTENDS Inputs

CONSTANTS Depth
VARIABLES w, step, ops, phrases

Walks == atoi(IOEnv.VERIF_WALKS)
WSolo == IOEnv.VERIF_SOLO = "1"
Handles == 1..5

Rn(x, n) == RndInt("walk", (w * 1000 + step) * 20 + x, n)
OneOf(s, x) == s[Rn(x, Len(s)) + 1]

(* --- the small world of walk i ---------------------------------------------- *)
Scalars(i) ==
  LET a == RndScalar("wa", i) b == RndScalar("wb", i)
      x == Pad(a, 32) y == Pad(b, 32)
  IN  << a, b, Minus(a), One, Two, Minus(One), ModAdd(a, One, N), ModMul(Two, a, N), ModSub(a, b, N),
         Mod(Strip(Take(x, 16) \o SubSeq(y, 17, 32)), N),        \* upper half of a
         Strip(<<y[1] \div 2>> \o SubSeq(y, 2, 16) \o SubSeq(x, 17, 32)),    \* lower half of a
         Strip(Zeros(24) \o SubSeq(x, 25, 32)), Mod(Strip(Take(x, 31) \o <<y[32]>>), N),
         Strip(SubSeq(x, 2, 32)), ModMul(a, b, N), ModInv(a, N), CorpusScalars[RndInt("wc", i, Len(CorpusScalars)) + 1] >>
GoodScalars(i) == SelectSeq(Scalars(i), InRange)
WNets(i) == << Main, NetR("copy", "80", "00"), NetR("mix1", "80", "6F"), TestN, Nets[RndInt("wn", i, Len(Nets)) + 1] >>
WLists == << "English", "English/copy", "English/rev", "French", "English", "English/ed1", "English/ed2" >>

(* a phrase of 12 words, one of 15 that starts with it, and others *)
Short(i) == RndBytes("we", i, 16)
Longer(i) == BytesOf(IndicesBits(EntropyToIndices(Short(i), CR, WB), WB) \o SubSeq(BitsOf(RndBytes("wf", i, 4)), 1, 28))
WPhrases(i) == << PhraseOf(Short(i), WordList("English")), PhraseOf(Longer(i), WordList("English")), PhraseOf(Zeros(16), WordList("English")),
                  PhraseOf(RndBytes("wg", i, 32), WordList("English")), PhraseOf(Short(i), WordList("French")), PhraseOf(Short(i), WordList("English/rev")) >>
NoP == Plain(<<>>)
WPasses(i) == LET p == WPhrases(i) d == SubSeq(p[2], Len(p[1]) + 1, Len(p[2]))
              IN  << NoP, Plain(d), Plain(Tail(d)), Plain(Chars("x")), Plain(Chars("X")), Plain(Chars("mnemonic")), Plain(Chars("x ")) >>
PtOf(k) == PubOf(k, NetV(Main))
NegPt(p) == [p EXCEPT !.y = ModNeg(@, P)]

(* --- operations, as the driver reads them --------------------------------------- *)
Log(o) == ops' = Append(ops, o)
Held(f, x) == LET s == SetToSortSeq(DOMAIN f, <) IN s[Rn(x, Len(s)) + 1]
H1 == OneOf(SetToSortSeq(Handles, <), 1)
Anet == OneOf(WNets(w), 2)
K == OneOf(GoodScalars(w), 3)
NoPhrase == UNCHANGED phrases

DoHex == LET t == Recase(HexOf(K), Rn(4, 3)) n == Anet IN
  /\ Log([op |-> "ImportHex", h |-> H1, t |-> Hex(t), n |-> n]) /\ ImportHex(H1, t, NetV(n)) /\ NoPhrase
DoWif == LET n == Anet m == OneOf(WNets(w), 5) t == IF Rn(4, 2) = 0 THEN WifOf(K, NetV(m)) ELSE CompressedWifOf(K, NetV(m)) IN
  /\ Log([op |-> "ImportWif", h |-> H1, t |-> Hex(t), n |-> n]) /\ ImportWif(H1, t, NetV(n)) /\ NoPhrase
DoCheck == LET t == WifOf(K, NetV(Anet)) u == IF Rn(4, 2) = 0 THEN t ELSE Swap(t, 3 + Rn(5, 40)) IN
  /\ Log([op |-> "CheckWif", t |-> Hex(u)]) /\ CheckWif(u) /\ NoPhrase
DoBadHex == LET ts == BadHexTexts(K) t == OneOf(ts, 4) n == Anet IN
  /\ Log([op |-> "ImportHex", h |-> H1, t |-> Hex(t), n |-> n]) /\ ImportHex(H1, t, NetV(n)) /\ NoPhrase
DoJunk == LET t == OneOf(Junk, 4) n == Anet IN
  IF Rn(5, 3) = 0 THEN /\ Log([op |-> "ImportWif", h |-> H1, t |-> Hex(t), n |-> n]) /\ ImportWif(H1, t, NetV(n)) /\ NoPhrase
  ELSE IF Rn(5, 3) = 1 THEN /\ Log([op |-> "ImportPub", h |-> H1, t |-> Hex(t), n |-> n]) /\ ImportPub(H1, t, NetV(n)) /\ NoPhrase
  ELSE /\ Log([op |-> "CheckWif", t |-> Hex(t)]) /\ CheckWif(t) /\ NoPhrase
DoGen == LET n == Anet IN /\ Log([op |-> "Gen", h |-> H1, n |-> n]) /\ Generate(H1, RndScalar("wgen", w * 1000 + step), NetV(n)) /\ NoPhrase
DoReWif == LET g == Held([x \in Whole |-> 0], 4) n == Anet IN
  /\ Log([op |-> "ImportWif", h |-> H1, tr |-> [f |-> "wif", h |-> g], n |-> n]) /\ ImportWif(H1, priv[g].wif, NetV(n)) /\ NoPhrase
DoReHex == LET g == Held([x \in Whole |-> 0], 4) n == Anet c == Rn(5, 3) IN
  /\ Log([op |-> "ImportHex", h |-> H1, tr |-> [f |-> "hex", h |-> g, case |-> CaseName(c)], n |-> n])
  /\ ImportHex(H1, Recase(priv[g].hex, c), NetV(n)) /\ NoPhrase
DoAdd == LET a == Held(priv, 4) b == Held(priv, 5) IN /\ Log([op |-> "AddPriv", h |-> H1, a |-> a, b |-> b]) /\ AddPriv(H1, a, b) /\ NoPhrase
DoMul == LET a == Held(priv, 4) b == Held(priv, 5) IN /\ Log([op |-> "MulPriv", h |-> H1, a |-> a, b |-> b]) /\ MulPriv(H1, a, b) /\ NoPhrase
DoPub == LET a == Held(priv, 4) IN /\ Log([op |-> "GetPub", h |-> H1, a |-> a]) /\ GetPub(H1, a) /\ NoPhrase
DoLit == LET n == Anet k == K IN
  /\ Log([op |-> "Lit", h |-> H1, k |-> Hex(k), hex |-> Hex(HexOf(k)), wif |-> Hex(WifOf(k, NetV(n))), n |-> n])
  /\ Literal(H1, k, NetV(n)) /\ NoPhrase
DoRekey == LET h == Held(priv, 4) k == K IN
  /\ Log([op |-> "Rekey", h |-> h, k |-> Hex(k), hex |-> Hex(HexOf(k)), wif |-> Hex(WifOf(k, priv[h].net))])
  /\ Rekey(h, k) /\ NoPhrase
DoBare == LET n == Anet k == K IN
  /\ Log([op |-> "Lit", h |-> H1, k |-> Hex(k), hex |-> "", wif |-> "", n |-> n]) /\ NumberOnly(H1, k, NetV(n)) /\ NoPhrase
DoRenum == LET h == Held([x \in DOMAIN priv \ Whole |-> 0], 4) k == K IN
  /\ Log([op |-> "Renum", h |-> h, k |-> Hex(k)]) /\ Renumber(h, k) /\ NoPhrase
DoForget == LET h == Held(priv, 4) IN /\ Log([op |-> "Forget", h |-> h]) /\ Forget(h) /\ NoPhrase
DoImpPub == LET p == PtOf(K) q == IF Rn(6, 2) = 0 THEN p ELSE NegPt(p) t == Recase(FormatR(q, Rn(4, 2) = 0), Rn(5, 3)) n == Anet IN
  /\ Log([op |-> "ImportPub", h |-> H1, t |-> Hex(t), n |-> n]) /\ ImportPub(H1, t, NetV(n)) /\ NoPhrase
DoBadPub == LET p == PtOf(K) q == PtOf(IF K = Minus(One) THEN Two ELSE ModAdd(K, One, N)) n == Anet
                t == IF Rn(4, 2) = 0 THEN Chars("04") \o HexOf(p.x) \o HexOf(q.y) ELSE Chars("05") \o HexOf(p.x) IN
  /\ Log([op |-> "ImportPub", h |-> H1, t |-> Hex(t), n |-> n]) /\ ImportPub(H1, t, NetV(n)) /\ NoPhrase
DoRePub == LET g == Held(pub, 4) c == (Rn(5, 2) = 0) n == Anet IN
  /\ Log([op |-> "ImportPub", h |-> H1, tr |-> [f |-> IF c THEN "fmtc" ELSE "fmtu", h |-> g, case |-> "as"], n |-> n])
  /\ ImportPub(H1, FormatR(pub[g], c), NetV(n)) /\ NoPhrase
DoFormat == LET a == Held(pub, 4) c == (Rn(5, 2) = 0) IN /\ Log([op |-> "Format", a |-> a, c |-> c]) /\ Format(a, c) /\ NoPhrase
DoAddr == LET a == Held(pub, 4) c == (Rn(5, 2) = 0) IN /\ Log([op |-> "Addr", a |-> a, c |-> c]) /\ Address(a, c) /\ NoPhrase
DoAddPub == LET a == Held(pub, 4) b == Held(pub, 5) IN
  /\ Log([op |-> "AddPub", h |-> H1, a |-> a, b |-> b, c |-> (Rn(6, 2) = 0)]) /\ AddPub(H1, a, b) /\ NoPhrase
DoPubLit == LET p == PtOf(K) q == IF Rn(6, 2) = 0 THEN p ELSE NegPt(p) n == Anet IN
  /\ Log([op |-> "PubLit", h |-> H1, x |-> Hex(q.x), y |-> Hex(q.y), n |-> n]) /\ PubLiteral(H1, q.x, q.y, NetV(n)) /\ NoPhrase
DoRekeyPub == LET h == Held(pub, 4) p == IF Rn(6, 3) = 0 THEN NegPt(pub[h]) ELSE PtOf(K) IN
  /\ Log([op |-> "RekeyPub", h |-> h, x |-> Hex(p.x), y |-> Hex(p.y)]) /\ PubLiteral(h, p.x, p.y, pub[h].net) /\ NoPhrase
DoForgetPub == LET h == Held(pub, 4) IN /\ Log([op |-> "ForgetPub", h |-> h]) /\ ForgetPub(h) /\ NoPhrase
DoMnem == LET n == OneOf(Sizes, 4) l == OneOf(WLists, 5) h == H1 IN
  /\ Log([op |-> "Mnem", h |-> h, w |-> (n * 3) \div 4, list |-> l])
  /\ NewPhrase(RndBytes("wm", w * 1000 + step, n), WordList(l))
  /\ phrases' = phrases \cup {h}
DoSeed == LET t == OneOf(WPhrases(w), 4) p == OneOf(WPasses(w), 5) l == OneOf(WLists, 6) IN
  /\ Log([op |-> "Seed", t |-> Hex(t), pass |-> Hex(p.p), npass |-> Hex(p.n), list |-> l])
  /\ NewSeed(t, p.p, WordList(l)) /\ NoPhrase
DoSeedOf == LET h == CHOOSE x \in phrases : TRUE p == OneOf(WPasses(w), 5) IN
  /\ Log([op |-> "Seed", tr |-> [f |-> "phrase", h |-> h, same |-> FALSE], pass |-> Hex(p.p), npass |-> Hex(p.n), list |-> OneOf(WLists, 6)])
  /\ Pure(Err) /\ NoPhrase
LastSeed == LET s == SelectSeq(ops, LAMBDA o : o.op = "Seed") IN IF s = <<>> THEN <<>> ELSE <<s[Len(s)]>>
DoWipe == ops' = ops \o << [op |-> "WipeSeed"] >> \o LastSeed /\ UNCHANGED <<priv, pub, out, phrases>>

(* what can be done now *)
Kinds ==
  << "hex", "hex", "wif", "check", "badhex", "junk", "gen", "lit", "bare", "imppub", "badpub", "publit", "mnem", "seed", "seed", "wipe" >>
  \o (IF DOMAIN priv = {} THEN <<"hex">>
      ELSE <<"add", "add", "mul", "pub", "pub", "pub", "rekey", "rekey", "forget">>)
  \o (IF DOMAIN pub = {} THEN <<"imppub">>
      ELSE <<"repub", "format", "format", "addr", "addr", "addpub", "addpub", "rekeypub", "rekeypub", "forgetpub">>)
  \o (IF Whole = {} THEN <<>> ELSE <<"rewif", "rehex">>)
  \o (IF Whole = DOMAIN priv THEN <<>> ELSE <<"renum", "renum">>)
  \o (IF phrases = {} THEN <<>> ELSE <<"seedof">>)

Do(k) ==
  CASE k = "hex" -> DoHex [] k = "wif" -> DoWif [] k = "check" -> DoCheck [] k = "badhex" -> DoBadHex [] k = "junk" -> DoJunk
    [] k = "gen" -> DoGen [] k = "lit" -> DoLit [] k = "imppub" -> DoImpPub [] k = "badpub" -> DoBadPub [] k = "publit" -> DoPubLit
    [] k = "mnem" -> DoMnem [] k = "seed" -> DoSeed [] k = "wipe" -> DoWipe [] k = "rewif" -> DoReWif [] k = "rehex" -> DoReHex
    [] k = "add" -> DoAdd [] k = "mul" -> DoMul [] k = "pub" -> DoPub [] k = "rekey" -> DoRekey [] k = "forget" -> DoForget
    [] k = "bare" -> DoBare [] k = "renum" -> DoRenum
    [] k = "repub" -> DoRePub [] k = "format" -> DoFormat [] k = "addr" -> DoAddr [] k = "addpub" -> DoAddPub
    [] k = "rekeypub" -> DoRekeyPub [] k = "forgetpub" -> DoForgetPub [] k = "seedof" -> DoSeedOf

(* at the end the caller overwrites all it has, and goes on with other keys *)
WProbe ==
  LET n == WNets(w)[1 + (w % 5)] k == GoodScalars(w)[1] m == GoodScalars(w)[2] IN
  << [op |-> "Ruin"], [op |-> "ImportHex", h |-> 1, t |-> Hex(HexOf(k)), n |-> n], [op |-> "GetPub", h |-> 1, a |-> 1],
     [op |-> "ImportHex", h |-> 2, t |-> Hex(HexOf(m)), n |-> n], [op |-> "GetPub", h |-> 2, a |-> 2],
     [op |-> "AddPriv", h |-> 3, a |-> 1, b |-> 2], [op |-> "MulPriv", h |-> 4, a |-> 1, b |-> 2], [op |-> "AddPub", h |-> 3, a |-> 1, b |-> 2, c |-> TRUE],
     [op |-> "ImportPub", h |-> 4, t |-> Hex(FormatR(PtOf(k), TRUE)), n |-> n], [op |-> "Addr", a |-> 3, c |-> (w % 2 = 0)], [op |-> "End"] >>

WInit == Init /\ w \in 1..Walks /\ step = 0 /\ ops = <<>> /\ phrases = {}
WNext ==
  /\ w' = w /\ step' = step + 1
  /\ \/ /\ step < Depth /\ Do(OneOf(Kinds, 0))
     \/ /\ step = Depth
        /\ ndJsonSerialize(IOEnv.VERIF_OPS \o "." \o ToString(w),
             << [id |-> "walk" \o ToString(w), solo |-> WSolo, full |-> TRUE, ops |-> ops \o WProbe] >>)
        /\ UNCHANGED <<priv, pub, out, ops, phrases>>
WSpec == WInit /\ [][WNext]_<<priv, pub, out, w, step, ops, phrases>>

NetSet == {NetV(WNets(w)[i]) : i \in 1..Len(WNets(w))}
Binding == NetworkBinding(NetSet)
=============================================================================
