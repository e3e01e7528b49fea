----------------------------- MODULE Secp256k1 ------------------------------
(* The constants of BtcKeys for the real library. *)
EXTENDS Wire
SecpP == Unhex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
SecpN == Unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
SecpB == <<7>>
SecpG == << Unhex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
            Unhex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8") >>
SecpEntropySizes == {16, 20, 24, 28, 32}
=============================================================================
