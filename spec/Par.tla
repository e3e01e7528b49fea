-------------------------------- MODULE Par ---------------------------------
(***************************************************************************)
(* Checks recorded concurrent histories.  In BtcKeys a call's response is  *)
(* a function of the values of its arguments, so in every interleaving of  *)
(* the threads' calls each call has the response it has when the threads   *)
(* run one after the other (Conc.tla has the interleavings).  That is what *)
(* is checked here: seq is what the threads observed one after the other,  *)
(* runs what they observed at the same time, with the number of data races *)
(* that were seen.  Calls that use the random source may differ: what they *)
(* return has to be allowed, and no key or phrase may be returned twice.   *)
(***************************************************************************)
EXTENDS BtcKeys, Secp256k1, Lists

Hist == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES hi, l
NetOf(n) == [pk |-> Unhex(n.pk), ph |-> Unhex(n.ph)]
PrivVal(r) == [k |-> Unhex(r.k), hex |-> Unhex(r.hex), wif |-> Unhex(r.wif), net |-> NetOf(r)]
Num(k) == \A i \in DOMAIN k : k[i] \in Byte
Random(op) == op.op \in {"Gen", "Mnem"}

GoodRandom(op, r) ==
  IF op.op = "Gen" THEN r.o = "ok" /\ r.has /\ LET v == PrivVal(r.r) IN Num(v.k) /\ Generated(NetOf(op.n), OkKey(v))
  ELSE GeneratedPhrase(op.w, WordList(op.list), IF r.o = "ok" /\ r.has THEN OkText(Unhex(r.txt)) ELSE Err)
Value(op, r) == IF ~r.has \/ r.o # "ok" THEN <<>> ELSE IF op.op = "Gen" THEN <<"k", r.r.k>> ELSE <<"m", r.txt>>

(* the calls of thread t, and what it observed *)
CallOk(h, run, t, c) ==
  LET op == h.par[t][c]
      got == Range(run.res[t][c])
      alone == Range(h.seq[t][c])
  IN  IF Random(op) THEN (\A r \in alone : GoodRandom(op, r)) => \A r \in got : GoodRandom(op, r)
      ELSE got \subseteq alone
(* different observations are kept once for each call, so a value that     *)
(* turns up at two calls was returned twice                                *)
Drawn(h, res) == UNION {UNION {{<<t, c, i>> : i \in DOMAIN res[t][c]} : c \in {c \in DOMAIN h.par[t] : Random(h.par[t][c])}}
                        : t \in DOMAIN h.par}
Val(h, res, d) == Value(h.par[d[1]][d[2]], res[d[1]][d[2]][d[3]])
Fresh(h, res) == LET ds == {d \in Drawn(h, res) : Val(h, res, d) # <<>>}
                 IN  Cardinality({Val(h, res, d) : d \in ds}) = Cardinality(ds)

RunOk(h, run) ==
  /\ run.races = 0
  /\ run.ended = "well"
  /\ run.chg = <<>> \/ h.seqchg # <<>>
  /\ \A t \in DOMAIN h.par : \A c \in DOMAIN h.par[t] : CallOk(h, run, t, c)
  /\ Fresh(h, h.seq) => Fresh(h, run.res)

PInit == Init /\ hi \in DOMAIN Hist /\ l = 0
PNext == /\ l < Len(Hist[hi].runs) /\ l' = l + 1 /\ hi' = hi /\ UNCHANGED <<priv, pub, out>>
         /\ (~RunOk(Hist[hi], Hist[hi].runs[l + 1]) => PrintT(<<"REJECT", hi, l + 1, {"C18"}>>))
PSpec == PInit /\ [][PNext]_<<priv, pub, out, hi, l>>
=============================================================================
