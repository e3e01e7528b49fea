-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* BtcKeys treats keys as values.  In memory a key is a pointer to a       *)
(* number that its owner may overwrite.  Here results get a new cell, or,  *)
(* with Sharing, sometimes an operand's or the package's own (as the       *)
(* public key of 1 once was the generator itself).  Refines: what callers  *)
(* see of the cells is the machine on values, step by step; TLC shows how  *)
(* that fails with Sharing.  The conformance check does to the real keys   *)
(* what Overwrite does here, after every call.                             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Keys, M, Sharing
VARIABLES ptr,     \* key -> cell, 0 when the caller does not hold it
          cell,    \* cell -> number
          val      \* key -> what it is worth, as values
hvars == <<ptr, cell, val>>

One == 1                                   \* the package's own cell
Cells == 1..(Cardinality(Keys) + 2)
Used == {ptr[k] : k \in Keys} \cup {One}
Fresh == CHOOSE c \in Cells : c \notin Used
None == -1

HInit == /\ ptr = [k \in Keys |-> 0] /\ cell = [c \in Cells |-> IF c = One THEN 1 ELSE 0]
         /\ val = [k \in Keys |-> None]

Give(h, c, v) == /\ ptr' = [ptr EXCEPT ![h] = c] /\ val' = [val EXCEPT ![h] = v]
NewCell(h, real, v) == Give(h, Fresh, v) /\ cell' = [cell EXCEPT ![Fresh] = real]
Import(h, v) == NewCell(h, v, v)
(* the product: of what the cells hold, in truth; of the values, by the specification *)
Times(h, a, b) ==
  /\ ptr[a] # 0 /\ ptr[b] # 0
  /\ LET r == (cell[ptr[a]] * cell[ptr[b]]) % M  v == (val[a] * val[b]) % M
     IN  IF Sharing /\ cell[ptr[b]] = 1 THEN Give(h, ptr[a], v) /\ UNCHANGED cell
         ELSE NewCell(h, r, v)
Unit(h) == IF Sharing THEN Give(h, One, 1) /\ UNCHANGED cell ELSE NewCell(h, cell[One], 1)
Overwrite(h, v) == /\ ptr[h] # 0 /\ cell' = [cell EXCEPT ![ptr[h]] = v]
                   /\ val' = [val EXCEPT ![h] = v] /\ UNCHANGED ptr
HNext == \E h \in Keys : \/ \E v \in 1..(M - 1) : Import(h, v) \/ Overwrite(h, v)
                         \/ \E a, b \in Keys : Times(h, a, b)
                         \/ Unit(h)
HSpec == HInit /\ [][HNext]_hvars

Refines == \A k \in Keys : ptr[k] # 0 => cell[ptr[k]] = val[k]
Separate == /\ \A j, k \in Keys : j # k /\ ptr[j] # 0 => ptr[j] # ptr[k]
            /\ \A k \in Keys : ptr[k] # One
=============================================================================
