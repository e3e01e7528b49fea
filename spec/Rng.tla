-------------------------------- MODULE Rng ---------------------------------
(***************************************************************************)
(* Generation at the grain of reads from the random source.  The source    *)
(* hands out any bytes, in pieces of any size, or fails.  Whole numbers    *)
(* that make no key are thrown away and drawn again.                       *)
(*                                                                         *)
(* A key comes out only from bytes of the source, never after a failure,   *)
(* and is in range; every number in range can come out (TLC is asked for   *)
(* a run to each: Never is violated); and if the source does not keep      *)
(* giving bad numbers for ever and does not fail, a key comes out.         *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Base,      \* values of a byte: 0..Base-1
          Width,     \* bytes of a number
          Limit,     \* numbers 1..Limit-1 make keys
          Target     \* for Never
VARIABLES buf, state, key, drawn
rvars == <<buf, state, key, drawn>>

ValOf[s \in Seq(Nat)] == IF s = <<>> THEN 0 ELSE ValOf[SubSeq(s, 1, Len(s) - 1)] * Base + s[Len(s)]
Val(s) == ValOf[s]
Good(n) == n \in 1..(Limit - 1)

Pieces == UNION {[1..n -> 0..(Base - 1)] : n \in 0..Width}

RInit == buf = <<>> /\ state = "reading" /\ key = -1 /\ drawn = 0
Give == /\ state = "reading" /\ Len(buf) < Width
        /\ \E p \in Pieces : Len(buf) + Len(p) <= Width /\ p # <<>> /\ buf' = buf \o p
        /\ UNCHANGED <<state, key, drawn>>
Fail == state = "reading" /\ Len(buf) < Width /\ state' = "failed" /\ UNCHANGED <<buf, key, drawn>>
Accept == /\ state = "reading" /\ Len(buf) = Width /\ Good(Val(buf))
          /\ state' = "done" /\ key' = Val(buf) /\ UNCHANGED <<buf, drawn>>
Reject == /\ state = "reading" /\ Len(buf) = Width /\ ~Good(Val(buf))
          /\ buf' = <<>> /\ drawn' = (drawn + 1) % 3 /\ UNCHANGED <<state, key>>
RNext == Give \/ Fail \/ Accept \/ Reject
(* strong fairness: a number that can be drawn again and again is drawn *)
GoodDraw == Give /\ (Len(buf') = Width => Good(Val(buf')))
RSpec == RInit /\ [][RNext]_rvars /\ WF_rvars(Accept \/ Reject) /\ WF_rvars(Give) /\ SF_rvars(GoodDraw /\ Len(buf') = Width)

KeyInRange == /\ state = "done" => Good(key) /\ key = Val(buf) /\ Len(buf) = Width
              /\ state # "done" => key = -1
Final == [][state = "reading" \/ UNCHANGED rvars]_rvars
Comes == <>(state \in {"done", "failed"})
Never == key # Target
=============================================================================
