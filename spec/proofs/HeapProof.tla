----------------------------- MODULE HeapProof ------------------------------
(***************************************************************************)
(* C17 for any number of keys: what TLC checks of Heap.tla for three keys, *)
(* proved (tlapm).  Memory is as large as it has to be: there is always a  *)
(* cell that nobody uses.                                                  *)
(***************************************************************************)
EXTENDS Heap, TLAPS

ASSUME Own == Sharing = FALSE /\ M \in Nat /\ M > 1
Room == \E c \in Cells : c \notin Used

Ind == /\ DOMAIN ptr = Keys /\ DOMAIN val = Keys /\ DOMAIN cell = Cells
       /\ \A k \in Keys : ptr[k] # 0 => ptr[k] \in Cells
       /\ 0 \notin Cells
       /\ One \in Cells /\ cell[One] = 1
       /\ Separate /\ Refines

LEMMA FreshNew == ASSUME Room PROVE Fresh \in Cells /\ Fresh \notin Used
BY DEF Room, Fresh

LEMMA Kept == ASSUME Ind, Room, NEW h \in Keys, NEW v, NewCell(h, v, v) PROVE Ind'
<1> DEFINE c == Fresh
<1>1. c \in Cells /\ c # One /\ \A k \in Keys : c # ptr[k] BY FreshNew DEF Used
<1> HIDE DEF c
<1>2. /\ ptr' = [ptr EXCEPT ![h] = c] /\ val' = [val EXCEPT ![h] = v] /\ cell' = [cell EXCEPT ![c] = v]
  BY DEF NewCell, Give, c
<1>3. Cells' = Cells /\ One' = One BY DEF Cells, One
<1> QED BY <1>1, <1>2, <1>3 DEF Ind, Separate, Refines

THEOREM Step == ASSUME Ind, Room, [HNext]_hvars PROVE Ind'
<1>1. CASE UNCHANGED hvars BY <1>1 DEF hvars, Ind, Separate, Refines, Cells, One
<1>2. ASSUME NEW h \in Keys, NEW v \in 1..(M - 1), Import(h, v) PROVE Ind'
  BY <1>2, Kept DEF Import
<1>3. ASSUME NEW h \in Keys, NEW v \in 1..(M - 1), Overwrite(h, v) PROVE Ind'
  BY <1>3 DEF Overwrite, Ind, Separate, Refines, Cells, One
<1>4. ASSUME NEW h \in Keys, NEW a \in Keys, NEW b \in Keys, Times(h, a, b) PROVE Ind'
  <2>1. cell[ptr[a]] = val[a] /\ cell[ptr[b]] = val[b] BY <1>4 DEF Times, Ind, Refines
  <2>2. NewCell(h, (cell[ptr[a]] * cell[ptr[b]]) % M, (val[a] * val[b]) % M) BY <1>4, Own DEF Times
  <2>3. (cell[ptr[a]] * cell[ptr[b]]) % M = (val[a] * val[b]) % M BY <2>1
  <2> DEFINE r == (val[a] * val[b]) % M
  <2>4. NewCell(h, r, r) BY <2>2, <2>3
  <2> HIDE DEF r
  <2> QED BY <2>4, Kept
<1>5. ASSUME NEW h \in Keys, Unit(h) PROVE Ind'
  <2>1. NewCell(h, 1, 1) BY <1>5, Own DEF Unit, Ind
  <2> QED BY <2>1, Kept
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF HNext

THEOREM Start == ASSUME HInit, 0 \notin Cells, One \in Cells PROVE Ind
BY DEF HInit, Ind, Separate, Refines, One

(* nobody sees another's numbers, as long as there is room *)
THEOREM Values == HInit /\ (0 \notin Cells) /\ (One \in Cells) /\ [][Room /\ HNext]_hvars => [](Refines /\ Separate)
<1>1. Ind /\ [Room /\ HNext]_hvars => Ind'
  <2>1. CASE UNCHANGED hvars BY <2>1 DEF hvars, Ind, Separate, Refines, Cells, One
  <2> QED BY <2>1, Step
<1>2. HInit /\ 0 \notin Cells /\ One \in Cells => Ind BY Start
<1>3. Ind => Refines /\ Separate BY DEF Ind
<1> QED BY <1>1, <1>2, <1>3, PTL
=============================================================================
