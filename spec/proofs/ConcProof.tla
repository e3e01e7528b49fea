----------------------------- MODULE ConcProof ------------------------------
(***************************************************************************)
(* C18 for any number of threads and calls: what TLC checks of Conc.tla    *)
(* for two and three threads, proved (tlapm).                              *)
(***************************************************************************)
EXTENDS Conc, TLAPS

ASSUME Own == Shared = FALSE /\ "package" \notin Threads /\ Args \subseteq Int /\ Calls \in Nat

States == {"idle", "write", "written", "read", "done"}
Type == /\ pc \in [Threads -> States] /\ arg \in [Threads -> Int]
        /\ DOMAIN cell = Cells /\ DOMAIN res = Threads
Ind == /\ Type
       /\ \A t \in Threads : /\ pc[t] = "read" => cell[t] = F(arg[t])
                             /\ pc[t] = "done" => res[t] = F(arg[t])

LEMMA OwnCell == \A t \in Threads : Cell(t) = t /\ t \in Cells
BY Own DEF Cell, Cells

THEOREM Start == CInit => Ind
BY Own DEF CInit, Ind, Type, States, Cells

THEOREM Step == Ind /\ [CNext]_cvars => Ind'
<1> SUFFICES ASSUME Ind, [CNext]_cvars PROVE Ind'
  OBVIOUS
<1> USE Own, OwnCell DEF Ind, Type, States, Go
<1> HIDE DEF F
<1>1. CASE UNCHANGED cvars BY <1>1 DEF cvars
<1>2. CASE \E t \in Threads : Begin(t) BY <1>2 DEF Begin
<1>3. CASE \E t \in Threads : Write(t) BY <1>3 DEF Write
<1>4. CASE \E t \in Threads : Written(t) BY <1>4 DEF Written
<1>5. CASE \E t \in Threads : Read(t) BY <1>5 DEF Read
<1>6. CASE \E t \in Threads : Return(t) BY <1>6 DEF Return
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF CNext

LEMMA Apart == NoRace
BY OwnCell DEF NoRace

THEOREM AsAlone == CSpec => [](Same /\ NoRace)
<1>1. Ind => Same BY DEF Ind, Same
<1>2. CInit /\ [][CNext]_cvars => []Ind BY Start, Step, PTL
<1>3. Ind => Same /\ NoRace BY <1>1, Apart
<1> QED BY <1>2, <1>3, PTL DEF CSpec
=============================================================================
