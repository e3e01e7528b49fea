-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* How traces and tables write byte sequences: as strings of hex digits.   *)
(* TLC cannot look into strings, so these have only java evaluators    *)
(* (java/WireOv.java).                                                     *)
(*   Unhex("00ff") = <<0, 255>>.  "nil" and strings starting with "-"      *)
(*   (absent and negative numbers) give sequences with elements that are   *)
(*   not bytes, so they equal no number.                                   *)
(*   Hex is the inverse; UnhexAll maps a sequence of strings.              *)
(***************************************************************************)
EXTENDS Integers, Sequences
Unhex(s) == CHOOSE b \in Seq(0..255) : TRUE
UnhexAll(ss) == [i \in DOMAIN ss |-> Unhex(ss[i])]
Chars(s) == CHOOSE b \in Seq(0..255) : TRUE      \* the characters of a TLA+ string
Hex(b) == CHOOSE s \in STRING : TRUE
=============================================================================
