------------------------------- MODULE Ladder -------------------------------
(***************************************************************************)
(* How the library multiplies: a ladder over all bits of N that keeps      *)
(* r1 - r0 = G, with an addition that ends the process on opposite points  *)
(* (other than those with x = 0, which add up to infinity).  BtcKeys says  *)
(* only that the public key is kG; this module shows that the ladder gets  *)
(* there for every scalar when it is given the smaller of k and N - k      *)
(* (Folded), and that it does not for k = N - 1 when it is given k.        *)
(* The states that matter on the real curve are among the scalars of       *)
(* Inputs.tla, which are replayed into the real code.                      *)
(***************************************************************************)
EXTENDS Toy, Secp256k1

CONSTANTS Folded, Real
VARIABLES k, i, r0, r1, dead
lvars == <<k, i, r0, r1, dead>>

Half == DivMod(N, <<2>>)[1]
(* scalars at which a prefix, its double or its successor is special *)
RealScalars ==
  {Nat2Big(j) : j \in 1..12} \cup {Sub(N, Nat2Big(j)) : j \in 1..12}
  \cup {Add(Half, Nat2Big(j)) : j \in 0..4} \cup {Sub(Half, Nat2Big(j)) : j \in 1..4}
  \cup {DivMod(N, Nat2Big(j))[1] : j \in 3..9} \cup {Nat2Big(2 ^ j) : j \in 4..30}
Ks == IF Real THEN RealScalars ELSE Scalars

Folds == Folded /\ Lt(Sub(N, k), k)
Used == IF Folds THEN Sub(N, k) ELSE k

Opposite(p, q) == p # Infinity /\ q # Infinity /\ p[1] = q[1] /\ p[2] # q[2] /\ p[1] # <<>>
Bad(bit) == IF bit = 0 THEN Opposite(r0, r1) \/ Opposite(r0, r0) ELSE Opposite(r0, r1) \/ Opposite(r1, r1)

LInit == /\ Init /\ k \in Ks /\ i = BitLen(N) /\ r0 = Infinity /\ r1 = G /\ dead = FALSE
LStep == /\ i > 0 /\ ~dead /\ UNCHANGED <<k, keysVars>>
         /\ LET b == Bit(Used, i - 1)
            IN  IF Bad(b) THEN dead' = TRUE /\ UNCHANGED <<i, r0, r1>>
                ELSE /\ i' = i - 1 /\ dead' = FALSE
                     /\ r0' = EcAdd(r0, IF b = 0 THEN r0 ELSE r1, P)
                     /\ r1' = EcAdd(r1, IF b = 0 THEN r0 ELSE r1, P)
LSpec == LInit /\ [][LStep]_<<lvars, keysVars>> /\ WF_<<lvars, keysVars>>(LStep)

Alive == ~dead
Apart == EcAdd(r0, G, P) = r1
Right == i = 0 => /\ r0 # Infinity
                  /\ (IF Folds THEN <<r0[1], Sub(P, r0[2])>> ELSE r0) = EcMul(k, G, P)
Ends == <>(i = 0)
=============================================================================
