------------------------------ MODULE RngProof ------------------------------
(***************************************************************************)
(* C06, C16 for every size of bytes, numbers and range: what TLC checks of *)
(* Rng.tla on a small one, proved (tlapm).  Val may be any function of the *)
(* bytes: nothing is used of it.                                           *)
(***************************************************************************)
EXTENDS Rng, TLAPS

Ind == KeyInRange /\ state \in {"reading", "done", "failed"}

THEOREM Start == RInit => Ind
BY DEF RInit, Ind, KeyInRange

THEOREM Step == Ind /\ [RNext]_rvars => Ind'
<1> SUFFICES ASSUME Ind, [RNext]_rvars PROVE Ind'
  OBVIOUS
<1> HIDE DEF Val, Good
<1> USE DEF Ind, KeyInRange
<1>1. CASE UNCHANGED rvars BY <1>1 DEF rvars
<1>2. CASE Give BY <1>2 DEF Give
<1>3. CASE Fail BY <1>3 DEF Fail
<1>4. CASE Accept BY <1>4 DEF Accept
<1>5. CASE Reject BY <1>5 DEF Reject
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF RNext

THEOREM OnlyFromTheSource == RSpec => []KeyInRange
<1>1. Ind => KeyInRange BY DEF Ind
<1> QED BY Start, Step, <1>1, PTL DEF RSpec

(* what is decided stays so: nothing comes after a failure *)
THEOREM ForGood == RSpec => Final
<1>1. [RNext]_rvars => [state = "reading" \/ UNCHANGED rvars]_rvars
  BY DEF RNext, Give, Fail, Accept, Reject
<1> QED BY <1>1, PTL DEF RSpec, Final
=============================================================================
