------------------------------- MODULE Lists --------------------------------
(* The nine BIP39 word lists and the variations of them that callers of    *)
(* the generated histories pass in.  data/wordlists.json holds each word   *)
(* as the hex of its UTF-8 text in NFKD form.                              *)
EXTENDS Wire, Sequences, Integers, Json, IOUtils, TLC

ListFile == JsonDeserialize(IOEnv.VERIF_DATA \o "/wordlists.json")
ListNames == DOMAIN ListFile
Standard == [n \in ListNames |-> UnhexAll(ListFile[n])]

Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
CutWords(l, n) ==
  [i \in 1..n |-> IF i <= Len(l) THEN l[i]
                  ELSE l[((i - 1) % Len(l)) + 1] \o Chars(ToString((i - 1) \div Len(l)))]

CustomLists ==
  [ n \in {"English/rev", "English/copy", "English/rot", "Japanese/rev", "English/nil", "English/empty"} |->
      CASE n = "English/rev"   -> Rev(Standard["English"])
        [] n = "Japanese/rev"  -> Rev(Standard["Japanese"])
        [] n = "English/copy"  -> Standard["English"]
        [] n = "English/rot"   -> Tail(Standard["English"]) \o <<Head(Standard["English"])>>
        [] OTHER               -> <<>> ]
CutSizes == {1, 2, 11, 1023, 1024, 2047, 2049, 4096}
CutLists == [ n \in {"English/" \o ToString(s) : s \in CutSizes} |->
                CutWords(Standard["English"], CHOOSE s \in CutSizes : n = "English/" \o ToString(s)) ]
(* a list that its owner edits in place between calls *)
EdNames == <<"English/ed1", "English/ed2", "English/ed3">>
Edition(l, n) == [i \in DOMAIN l |-> IF i = 1 THEN l[n + 1] ELSE IF i = n + 1 THEN l[1] ELSE l[i]]
EdLists == [ n \in {EdNames[i] : i \in 1..3} |-> Edition(Standard["English"], 500 * (CHOOSE i \in 1..3 : EdNames[i] = n)) ]
AllLists == Standard @@ CustomLists @@ CutLists @@ EdLists
GoodLists == ListNames \cup {"English/rev", "English/copy", "English/rot", "Japanese/rev"} \cup DOMAIN EdLists
BadLists == DOMAIN AllLists \ GoodLists
WordList(name) == AllLists[name]
=============================================================================
