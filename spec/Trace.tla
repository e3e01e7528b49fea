------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks recorded histories of the real library against BtcKeys.          *)
(*                                                                         *)
(* The file named by VERIF_TRACE has one history on each line: the calls   *)
(* with their arguments, and what was observed.  Every history starts from *)
(* Init and each of its events has to be a step of BtcKeys: the response   *)
(* is the one the specification gives for the arguments and the keys held, *)
(* nothing else changes, nothing is written, and the call returns.  An     *)
(* event that is not such a step is reported with the properties it breaks *)
(* and the check goes on from the state that was observed.                 *)
(***************************************************************************)
EXTENDS BtcKeys, Secp256k1, Lists

Hist == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Focus == IOEnv.VERIF_FOCUS               \* the property this run decides, or ALL

VARIABLES hi, l,       \* history, next event
          delivered,   \* what generating calls made of which random bytes
          own          \* private keys whose texts the caller wrote

traceVars == <<priv, pub, out, hi, l, delivered, own>>

Has(e, f) == f \in DOMAIN e

(* --- decoding ------------------------------------------------------------ *)
NetOf(n) == [pk |-> Unhex(n.pk), ph |-> Unhex(n.ph)]
PrivVal(r) == [k |-> Unhex(r.k), hex |-> Unhex(r.hex), wif |-> Unhex(r.wif), net |-> NetOf(r)]
PubVal(r) == [x |-> Unhex(r.x), y |-> Unhex(r.y), net |-> NetOf(r)]

PrivOps == {"ImportHex", "ImportWif", "Gen", "AddPriv", "MulPriv"}
PubOps == {"GetPub", "ImportPub", "AddPub"}
TextOps == {"Format", "Addr", "Mnem", "Seed"}
Calls == PrivOps \cup PubOps \cup TextOps \cup {"CheckWif"}

(* the observed response; "bad" is neither a result nor an error *)
BadResp == [o |-> "bad"]
RespOf(op, e) ==
  IF e.o = "err" /\ ~e.has THEN Err
  ELSE IF e.o = "ok" /\ e.has
       THEN IF op \in PrivOps THEN OkKey(PrivVal(e.r))
            ELSE IF op \in PubOps THEN OkKey(PubVal(e.r))
            ELSE IF op \in TextOps THEN OkText(Unhex(e.txt))
            ELSE [o |-> "ok", b |-> e.b]
  ELSE BadResp
Resp(e) == RespOf(e.op, e)

Strange(e) == e.o \in {"panic", "died", "hang"} \/ (e.o = "ok" /\ ~e.has) \/ (e.o = "err" /\ e.has)

(* --- what a response says, apart from the network it carries ------------- *)
Bare(r) == IF IsOk(r) THEN [r EXCEPT !.key.net = <<>>] ELSE r

WifNetWrong(r) ==
  /\ IsOk(r) /\ CheckWifR(r.key.wif) /\ ~WifOnNet(r.key.wif, r.key.net)
CarriesNet(r, net) == IsOk(r) => r.key.net = net

(* Is the scalar of a held key one the statements talk about? *)
Num(k) == \A i \in DOMAIN k : k[i] \in Byte
Valid(p) == Num(p.k) /\ InRange(p.k)
ValidPub(p) == Num(p.x) /\ Num(p.y) /\ OnCurve(<<p.x, p.y>>, B, P)

(* A scripted call: the same bytes give the same result *)
DKey(e) == <<e.op, IF e.op = "Mnem" THEN e.w ELSE "", IF e.op = "Mnem" THEN e.list ELSE "", e.deliv>>
Deterministic(e) ==
  Has(e, "deliv") /\ ~e.failed /\ DKey(e) \in DOMAIN delivered =>
    LET d == delivered[DKey(e)]
    IN  d.o = e.o /\ (e.o = "ok" /\ e.has => IF e.op = "Gen" THEN d.v = e.r.k ELSE d.v = e.txt)

ToInt(e) == e.w

Failed(e) == Has(e, "failed") /\ e.failed

(* the same call in a fresh process *)
SoloSame(e) ==
  Has(e, "sr") =>
    /\ e.sr.o = e.o /\ e.sr.has = e.has
    /\ (e.has /\ e.o = "ok" =>
          IF e.op \in PrivOps \cup PubOps THEN RespOf(e.op, e.sr) = Resp(e)
          ELSE IF e.op \in TextOps THEN e.sr.txt = e.txt ELSE e.sr.b = e.b)

(* several generating calls on variations of one random stream *)
Changed(e) == {e.vs[j].i : j \in {j \in DOMAIN e.vs : e.vs[j].res.v # e.base.v}}
ValueBytes(e, v) == IF e.of = "Gen" THEN Pad(Unhex(v), KW)
                    ELSE PhraseEntropy(Unhex(v), WordList(e.list))
(* whether a phrase encodes the right number of bits is a matter of C13 *)
Readable(e, v) ==
  IF e.of = "Gen" THEN Num(Unhex(v)) /\ Len(Unhex(v)) <= KW
  ELSE LET ix == PhraseIndices(Unhex(v), WordList(e.list)) IN Len(ix) = e.w /\ \A i \in DOMAIN ix : ix[i] >= 0
BitsVary(e) ==
  LET bs == [j \in DOMAIN e.vs |-> BitsOf(ValueBytes(e, e.vs[j].res.v))]
      col == [i \in 1..Len(bs[1]) |-> [j \in DOMAIN bs |-> bs[j][i]]]
      flip(c) == [j \in DOMAIN c |-> 1 - c[j]]
      (* a column and its opposite count as one *)
      norm(c) == IF c[1] = 0 THEN c ELSE flip(c)
  IN  (* no bit is always the same, no two are always equal or always different *)
      /\ \A i \in DOMAIN col : \E j \in DOMAIN bs : norm(col[i])[j] = 1
      /\ Cardinality({norm(col[i]) : i \in DOMAIN col}) = Len(col)
Collides(e) == LET vs == {j \in DOMAIN e.vs : e.vs[j].res.v # e.base.v}      \* two changes of the stream, one result
               IN  Cardinality({e.vs[j].res.v : j \in vs}) < Cardinality(vs)
(* a stream with many draws that may be refused: each byte is changed in   *)
(* three ways, and those that matter give as many results                  *)
Different(e) == Cardinality({e.vs[j].res.v : j \in {j \in DOMAIN e.vs : e.vs[j].res.v # e.base.v}})
MultiOk(e) == /\ (e.op = "Sens" => e.base.o = "ok" /\ e.base.v # "")
              /\ \A j \in DOMAIN e.vs : e.vs[j].res.o = "ok" /\ e.vs[j].res.v # ""
EntBytes(e) == IF e.of = "Gen" THEN KW ELSE (e.w * 4) \div 3
MultiWrong(e) ==
  \/ ~MultiOk(e)
  \/ e.op = "Sens" /\ IF Has(e, "loose") THEN Different(e) < 3 * EntBytes(e) - 6
                      ELSE Cardinality(Changed(e)) < EntBytes(e) \/ Collides(e)
  \/ e.op = "Bits" /\ (\A j \in DOMAIN e.vs : Readable(e, e.vs[j].res.v)) /\ ~BitsVary(e)

(* --- the state that was observed after the call --------------------------- *)
NewPriv(e) ==
  IF e.op \in PrivOps
  THEN IF e.o # "skip" /\ e.has THEN (e.h :> PrivVal(e.r)) @@ priv
       ELSE IF e.o = "skip" THEN priv ELSE Without(priv, e.h)
  ELSE IF e.op \in {"Lit", "Rekey"} /\ e.o = "ok"
  THEN (e.h :> [k |-> Unhex(e.k), hex |-> Unhex(e.hex), wif |-> Unhex(e.wif),
                net |-> IF e.op = "Lit" THEN NetOf(e.n) ELSE priv[e.h].net]) @@ priv
  ELSE IF e.op = "Renum" /\ e.o = "ok" THEN [priv EXCEPT ![e.h].k = Unhex(e.k)]
  ELSE IF e.op = "Forget" THEN Without(priv, e.h)
  ELSE IF e.op = "Ruin" THEN <<>>
  ELSE priv
NewPub(e) ==
  IF e.op \in PubOps
  THEN IF e.o # "skip" /\ e.has THEN (e.h :> PubVal(e.r)) @@ pub
       ELSE IF e.o = "skip" THEN pub ELSE Without(pub, e.h)
  ELSE IF e.op \in {"PubLit", "RekeyPub"} /\ e.o = "ok"
  THEN (e.h :> [x |-> Unhex(e.x), y |-> Unhex(e.y),
                net |-> IF e.op = "PubLit" THEN NetOf(e.n) ELSE pub[e.h].net]) @@ pub
  ELSE IF e.op = "ForgetPub" THEN Without(pub, e.h)
  ELSE IF e.op = "Ruin" THEN <<>>
  ELSE pub

NewOwn(e) == IF e.o = "skip" THEN own
             ELSE IF e.op \in {"Lit", "Rekey", "Renum"} THEN own \cup {e.h}
             ELSE IF e.op \in PrivOps THEN own \ {e.h} ELSE own

(* the keys held, as the driver sees them after the call *)
StoreSame(e, p, u) ==
  Has(e, "st") =>
    /\ DOMAIN p = {e.st.priv[i].h : i \in DOMAIN e.st.priv}
    /\ \A i \in DOMAIN e.st.priv : PrivVal(e.st.priv[i].v) = p[e.st.priv[i].h]
    /\ DOMAIN u = {e.st.pub[i].h : i \in DOMAIN e.st.pub}
    /\ \A i \in DOMAIN e.st.pub : PubVal(e.st.pub[i].v) = u[e.st.pub[i].h]

(* --- which properties an event breaks ------------------------------------- *)
ReImport(e) == Has(e, "tr") /\ e.tr.f \in {"wif", "hex"} /\ e.tr.h \in DOMAIN priv \ own
               /\ priv[e.tr.h].net = NetOf(e.n) /\ Valid(priv[e.tr.h])

B01(e) == e.op = "ImportHex" /\
  LET x == ImportHexR(Unhex(e.t), NetOf(e.n)) IN IsOk(x) /\ Resp(e) # x

SameAgain(e) ==       \* e imports the WIF or hex of a key held
  LET p == priv[e.tr.h] r == Resp(e)
  IN  /\ IsOk(r)
      /\ r.key.k = p.k
      /\ IF e.op = "ImportWif" THEN r.key.wif = p.wif /\ r.key.hex = HexOf(p.k)
         ELSE /\ r.key.hex = Unhex(e.t)
              /\ p.wif = WifOf(p.k, p.net) => r.key.wif = p.wif
B02(e) ==
  \/ e.op \in {"ImportHex", "ImportWif"} /\ ReImport(e) /\ ~SameAgain(e)
  \/ e.op = "ImportWif" /\ LET x == ImportWifR(Unhex(e.t), NetOf(e.n))
                           IN  IsOk(x) /\ Bare(Resp(e)) # Bare(x)

B03(e) ==
  \/ e.op = "CheckWif" /\ Resp(e) # [o |-> "ok", b |-> CheckWifR(Unhex(e.t))]
  \/ e.op = "ImportWif" /\ ~CheckWifR(Unhex(e.t)) /\ Resp(e) # Err

B04(e) ==
  \/ e.op \in {"ImportHex", "ImportWif", "Gen", "ImportPub"} /\ ~CarriesNet(Resp(e), NetOf(e.n))
  \/ e.op = "ImportWif" /\ CheckWifR(Unhex(e.t)) /\ ~WifOnNet(Unhex(e.t), NetOf(e.n)) /\ Resp(e) # Err
  \/ (* refused although an equal network was accepted: ctl is that event *)
     Has(e, "ctl") /\ Hist[hi].ev[e.ctl].o = "ok" /\ Resp(e) = Err
  \/ e.op \in {"ImportHex", "Gen", "AddPriv", "MulPriv"} /\ WifNetWrong(Resp(e))
  \/ e.op \in {"AddPriv", "MulPriv"} /\ Valid(priv[e.a]) /\ Valid(priv[e.b]) /\
       IF SameNet(priv[e.a].net, priv[e.b].net)
       THEN ~CarriesNet(Resp(e), priv[e.a].net)
       ELSE Resp(e) # Err
  \/ e.op = "GetPub" /\ ~CarriesNet(Resp(e), priv[e.a].net)
  \/ e.op = "AddPub" /\ ValidPub(pub[e.a]) /\ ValidPub(pub[e.b]) /\
       IF SameNet(pub[e.a].net, pub[e.b].net)
       THEN ~CarriesNet(Resp(e), pub[e.a].net)
       ELSE Resp(e) # Err
  \/ e.op = "Addr" /\ LET r == Resp(e)
                      IN  IsOk(r) /\ CheckWifR(r.txt) /\
                          LET p == B58CheckPayload(r.txt, CK)
                          IN  p = <<>> \/ SubSeq(p, 1, 1) # AddrByte(pub[e.a].net)

B05(e) ==
  \/ e.op = "ImportHex" /\ LET x == ImportHexR(Unhex(e.t), NetOf(e.n)) r == Resp(e)
                           IN  IF IsOk(x) THEN ~IsOk(r) ELSE r # Err
  \/ e.op = "ImportWif" /\ CheckWifR(Unhex(e.t)) /\
       LET x == ImportWifR(Unhex(e.t), NetOf(e.n)) r == Resp(e)
       IN  IF IsOk(x) THEN ~IsOk(r) ELSE r # Err

B06(e) ==
  \/ e.op = "Gen" /\ IF Failed(e) THEN e.has \/ e.o = "ok"
                     ELSE ~IsOk(Resp(e)) \/ ~Num(Resp(e).key.k)
                          \/ ~Generated(NetOf(e.n), Resp(e)) \/ ~Deterministic(e)
                          \/ (Has(e, "deliv") /\ ~SoloSame(e))
                          \/ (Has(e, "deliv") /\ Len(Unhex(e.deliv)) < KW)
  \/ e.op \in {"Sens", "Bits"} /\ e.of = "Gen" /\ MultiWrong(e)

B07(e) == e.op \in {"AddPriv", "MulPriv"} /\ Valid(priv[e.a]) /\ Valid(priv[e.b])
  /\ SameNet(priv[e.a].net, priv[e.b].net)
  /\ Bare(Resp(e)) # Bare(IF e.op = "AddPriv" THEN AddPrivR(priv[e.a], priv[e.b])
                          ELSE MulPrivR(priv[e.a], priv[e.b]))

B08(e) == e.op = "GetPub" /\ Bare(Resp(e)) # Bare(IF Num(priv[e.a].k) THEN PubR(priv[e.a]) ELSE Err)

B09(e) ==
  \/ /\ e.op = "AddPub" /\ ValidPub(pub[e.a]) /\ ValidPub(pub[e.b])
     /\ SameNet(pub[e.a].net, pub[e.b].net)
     /\ Bare(Resp(e)) # Bare(AddPubR(pub[e.a], pub[e.b]))
  \/ (* s: the sum of two private keys, ps: its public key, sp: the sum of their public keys *)
     /\ e.op = "Homo"
     /\ e.a \in DOMAIN priv /\ e.b \in DOMAIN priv /\ e.s \in DOMAIN priv
     /\ ~(e.ps \in DOMAIN pub /\ e.sp \in DOMAIN pub /\ pub[e.ps].x = pub[e.sp].x /\ pub[e.ps].y = pub[e.sp].y)

B10(e) ==
  \/ e.op = "Format" /\ ValidPub(pub[e.a]) /\ Resp(e) # OkText(FormatR(pub[e.a], e.c))
  \/ e.op = "ImportPub" /\ LET x == ImportPubR(Unhex(e.t), NetOf(e.n))
                           IN  IsOk(x) /\ Resp(e) # x
  \/ e.op = "ImportPub" /\ Has(e, "tr") /\ e.tr.h \in DOMAIN pub /\ ValidPub(pub[e.tr.h])
       /\ Bare(Resp(e)) # Bare(OkKey(pub[e.tr.h]))

B11(e) == e.op = "ImportPub" /\
  LET x == ImportPubR(Unhex(e.t), NetOf(e.n)) r == Resp(e)
  IN  IF IsOk(x) THEN ~IsOk(r) ELSE r # Err

B12(e) == e.op = "Addr" /\ ValidPub(pub[e.a]) /\ Resp(e) # OkText(AddressR(pub[e.a], e.c))

B13(e) ==
  \/ e.op = "Mnem" /\ ~Failed(e) /\ ~GeneratedPhrase(ToInt(e), WordList(e.list), Resp(e))
  \/ e.op = "Seed" /\ Has(e, "tr") /\ e.tr.f = "phrase" /\ e.tr.same /\ ~IsOk(Resp(e))

B14(e) == e.op = "Seed" /\
  IF PhraseOk(Unhex(e.t), WordList(e.list)) THEN ~IsOk(Resp(e)) ELSE Resp(e) # Err

(* Passphrases that are not in NFKD form: the standard wants them          *)
(* normalised first (npass); the library takes them as they are, which is  *)
(* the one finding that is recorded and not repaired.                      *)
SeedWants(e) == OkText(Pbkdf2(Unhex(e.t), SaltWord \o Unhex(IF Has(e, "npass") THEN e.npass ELSE e.pass), Iterations))
SeedRaw(e) == OkText(Pbkdf2(Unhex(e.t), SaltWord \o Unhex(e.pass), Iterations))
K15(e) == e.op = "Seed" /\ Has(e, "npass") /\ e.npass # e.pass /\ e.o = "ok"
          /\ Resp(e) # SeedWants(e) /\ Resp(e) = SeedRaw(e)
B15(e) == e.op = "Seed" /\ IsOk(Resp(e)) /\ PhraseOk(Unhex(e.t), WordList(e.list))
          /\ Resp(e) # SeedWants(e) /\ ~K15(e)

B16(e) ==
  \/ e.op = "Mnem" /\ Has(e, "deliv") /\
       IF e.failed THEN Resp(e) # Err
       ELSE \/ ~Deterministic(e) \/ ~SoloSame(e)
            \/ IsOk(Resp(e)) /\ Len(Unhex(e.deliv)) < (ToInt(e) * 4) \div 3
  \/ e.op \in {"Sens", "Bits"} /\ e.of = "Mnem" /\ MultiWrong(e)

B17(e) == \/ Has(e, "chg") /\ e.chg # <<>>
          \/ (e.op \in Calls /\ ~Has(e, "deliv") /\ ~SoloSame(e))
          \/ ~StoreSame(e, NewPriv(e), NewPub(e))

B19(e) == e.op \in Calls \cup {"Sens", "Bits"} /\ Has(e, "io") /\ e.io > 0

B20(e) == e.op \in Calls /\ ~Failed(e) /\ Strange(e)

Breaks(p, e) ==
  IF e.o = "skip" THEN FALSE
  ELSE CASE p = "C01" -> B01(e) [] p = "C02" -> B02(e) [] p = "C03" -> B03(e) [] p = "C04" -> B04(e)
         [] p = "C05" -> B05(e) [] p = "C06" -> B06(e) [] p = "C07" -> B07(e) [] p = "C08" -> B08(e)
         [] p = "C09" -> B09(e) [] p = "C10" -> B10(e) [] p = "C11" -> B11(e) [] p = "C12" -> B12(e)
         [] p = "C13" -> B13(e) [] p = "C14" -> B14(e) [] p = "C15" -> B15(e) [] p = "C16" -> B16(e)
         [] p = "C17" -> B17(e) [] p = "C19" -> B19(e) [] p = "C20" -> B20(e)
AllProps == {"C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14",
             "C15","C16","C17","C19","C20"}
Judged == IF Focus = "ALL" THEN AllProps ELSE {Focus}
(* what came from the real source came once *)
Drawn(op) == SelectSeq(Hist[hi].ev, LAMBDA e : e.op = op /\ ~Has(e, "deliv") /\ e.o = "ok" /\ e.has)
Again(op) == LET d == Drawn(op) IN Cardinality({IF op = "Gen" THEN d[i].r.k ELSE d[i].txt : i \in DOMAIN d}) < Len(d)
Repeated == IF l < Len(Hist[hi].ev) THEN {}
            ELSE (IF Again("Gen") THEN {"C06"} ELSE {}) \cup (IF Again("Mnem") THEN {"C16"} ELSE {})
Broken(e) == {p \in Judged : Breaks(p, e)} \cup (Judged \cap Repeated)

(* --- behaviours ------------------------------------------------------------ *)
TraceInit == Init /\ hi \in DOMAIN Hist /\ l = 1 /\ delivered = <<>> /\ own = {}

Observe(e) ==
  /\ priv' = NewPriv(e)
  /\ pub' = NewPub(e)
  /\ out' = [o |-> e.o]
  /\ own' = NewOwn(e)
  /\ delivered' = IF Has(e, "deliv") /\ ~e.failed /\ e.op \in {"Gen", "Mnem"}
                  THEN (DKey(e) :> [o |-> e.o, v |-> IF e.o = "ok" /\ e.has THEN (IF e.op = "Gen" THEN e.r.k ELSE e.txt) ELSE ""])
                       @@ delivered
                  ELSE delivered

Report(e) ==
  LET b == Broken(e)
  IN  /\ (b # {} => PrintT(<<"REJECT", hi, l, b>>))
      /\ ("C15" \in Judged /\ K15(e) => PrintT(<<"KNOWN", hi, l, {"C15"}>>))

TraceNext ==
  /\ l <= Len(Hist[hi].ev)
  /\ l' = l + 1 /\ hi' = hi
  /\ LET e == Hist[hi].ev[l] IN Report(e) /\ Observe(e)

TraceSpec == TraceInit /\ [][TraceNext]_traceVars
=============================================================================
