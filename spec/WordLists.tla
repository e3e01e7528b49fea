----------------------------- MODULE WordLists ------------------------------
(***************************************************************************)
(* Compares the word lists of the library, entry by entry, with the        *)
(* standard ones (data/wordlists.json), and checks what BIP39 needs of     *)
(* them: 2048 words, all different, none empty or with a space in it, so   *)
(* that phrases and index sequences determine each other.  The lists are   *)
(* variables of the library: they are observed several times, before and   *)
(* after calls that use them, and are the standard ones each time.         *)
(***************************************************************************)
EXTENDS Lists, FiniteSets, Bip39
Observed == JsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES snap, name, i, ok

ListIn(s, n) == IF n \in DOMAIN Observed[s].lists THEN Observed[s].lists[n] ELSE <<>>
Entry(s, n, k) == IF k \in DOMAIN ListIn(s, n) THEN ListIn(s, n)[k] ELSE "none"
ListShape(n) ==
  LET s == Standard[n]
  IN  /\ Len(s) = 2048
      /\ Cardinality({s[k] : k \in 1..2048}) = 2048
      /\ \A k \in 1..2048 : s[k] # <<>> /\ \A j \in DOMAIN s[k] : s[k][j] # 32
      /\ \A k \in 1..2048 : IndexOf(s, s[k]) = k - 1
WInit == snap = 1 /\ name \in ListNames /\ i = 0 /\ ok = TRUE
(* step 0 looks at the whole list, step k at word k *)
Look == /\ i <= 2048 /\ i' = i + 1 /\ UNCHANGED <<snap, name>>
        /\ ok' = IF i = 0 THEN Len(ListIn(snap, name)) = 2048 ELSE Entry(snap, name, i) = ListFile[name][i]
        /\ (~ok' => PrintT(<<"REJECT", snap, name, i, {"C21"}>>))
(* calls of the library: they change no list *)
Use == i = 2049 /\ snap < Len(Observed) /\ snap' = snap + 1 /\ i' = 0 /\ ok' = TRUE /\ UNCHANGED name
WNext == Look \/ Use
WSpec == WInit /\ [][WNext]_<<snap, name, i, ok>>
Shape == i = 0 /\ snap = 1 => ListShape(name)
=============================================================================
