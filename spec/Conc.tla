-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* Calls in parallel, at the grain of memory accesses.  A call of the      *)
(* library loads the parameters of the curve, computes in a scratch cell   *)
(* and stores its response.  With Shared, the scratch cell is one of the   *)
(* package (as the curve's own A was in PublicFromHex before its repair);  *)
(* otherwise each call has its own.  A write happens in two halves, so     *)
(* that others can see it in between.                                      *)
(*                                                                         *)
(* Same: every call answers as it would alone.  NoRace: never do two       *)
(* threads touch one cell at once with one of them writing.  Both hold     *)
(* without Shared; TLC shows how they fail with it.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Args, Calls, Shared
VARIABLES pc, arg, cell, res, left
cvars == <<pc, arg, cell, res, left>>

Cell(t) == IF Shared THEN "package" ELSE t
Cells == Threads \cup {"package"}
F(x) == x * x + 7
Torn == -1

CInit == /\ pc = [t \in Threads |-> "idle"] /\ arg = [t \in Threads |-> 0]
         /\ cell = [c \in Cells |-> 0] /\ res = [t \in Threads |-> 0]
         /\ left = [t \in Threads |-> Calls]

Go(t, from, to) == pc[t] = from /\ pc' = [pc EXCEPT ![t] = to]
Begin(t) == /\ Go(t, "idle", "write") /\ left[t] > 0
            /\ \E x \in Args : arg' = [arg EXCEPT ![t] = x]
            /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<cell, res>>
Write(t) == Go(t, "write", "written") /\ cell' = [cell EXCEPT ![Cell(t)] = Torn] /\ UNCHANGED <<arg, res, left>>
Written(t) == Go(t, "written", "read") /\ cell' = [cell EXCEPT ![Cell(t)] = F(arg[t])] /\ UNCHANGED <<arg, res, left>>
Read(t) == Go(t, "read", "done") /\ res' = [res EXCEPT ![t] = cell[Cell(t)]] /\ UNCHANGED <<arg, cell, left>>
Return(t) == Go(t, "done", "idle") /\ UNCHANGED <<arg, cell, res, left>>
CNext == \E t \in Threads : Begin(t) \/ Write(t) \/ Written(t) \/ Read(t) \/ Return(t)
CSpec == CInit /\ [][CNext]_cvars /\ \A t \in Threads : WF_cvars(Begin(t) \/ Write(t) \/ Written(t) \/ Read(t) \/ Return(t))

Same == \A t \in Threads : pc[t] = "done" => res[t] = F(arg[t])
Writing(t) == pc[t] \in {"write", "written"}
NoRace == \A s, t \in Threads : s # t /\ Cell(s) = Cell(t) => ~(Writing(s) /\ pc[t] \in {"write", "written", "read"})
Finish == \A t \in Threads : <>(left[t] = 0 /\ pc[t] = "idle")
=============================================================================
