------------------------------- MODULE Bip39 --------------------------------
(***************************************************************************)
(* BIP39: entropy <-> word indices, and the seed of a phrase.  Parameters: *)
(* eb entropy bytes, cr entropy bits for each checksum bit (32), wb bits   *)
(* of a word (11).                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, Hashes

BitsOf(bytes) == [i \in 1..(8 * Len(bytes)) |->
                    (bytes[((i - 1) \div 8) + 1] \div 2 ^ (7 - ((i - 1) % 8))) % 2]
BitsVal(bits) == FoldLeft(LAMBDA a, b : 2 * a + b, 0, bits)
BytesOf(bits) == [i \in 1..(Len(bits) \div 8) |-> BitsVal(SubSeq(bits, 8*i - 7, 8*i))]

CheckBits(ent, cr) == SubSeq(BitsOf(Sha256(ent)), 1, (8 * Len(ent)) \div cr)

(* word indices start at 0 *)
EntropyToIndices(ent, cr, wb) ==
  LET bits == BitsOf(ent) \o CheckBits(ent, cr)
  IN  [i \in 1..(Len(bits) \div wb) |-> BitsVal(SubSeq(bits, wb*(i-1) + 1, wb*i))]

IndexBits(idx, wb) == [j \in 1..wb |-> (idx \div 2 ^ (wb - j)) % 2]
IndicesBits(ix, wb) == [i \in 1..(wb * Len(ix)) |->
                          (ix[((i - 1) \div wb) + 1] \div 2 ^ (wb - 1 - ((i - 1) % wb))) % 2]
(* entropy bits in n words: n*wb = e + e/cr *)
EntropyBits(n, cr, wb) == (n * wb * cr) \div (cr + 1)
IndicesEntropy(ix, cr, wb) == BytesOf(SubSeq(IndicesBits(ix, wb), 1, EntropyBits(Len(ix), cr, wb)))
IndicesOk(ix, cr, wb) ==
  LET bits == IndicesBits(ix, wb)
      e == EntropyBits(Len(ix), cr, wb)
  IN  SubSeq(bits, e + 1, Len(bits)) = CheckBits(BytesOf(SubSeq(bits, 1, e)), cr)

(* the text of a phrase, cut at single spaces *)
RECURSIVE SplitAt(_, _, _, _)
SplitAt(t, sep, i, j) ==        \* t[i..j-1] belongs to the current piece
  IF j > Len(t) THEN <<SubSeq(t, i, j - 1)>>
  ELSE IF t[j] = sep THEN <<SubSeq(t, i, j - 1)>> \o SplitAt(t, sep, j + 1, j + 1)
  ELSE SplitAt(t, sep, i, j + 1)
SplitD(t, sep) == SplitAt(t, sep, 1, 1)
Split(t, sep) == SplitD(t, sep)
Join(ws, sep) == IF ws = <<>> THEN <<>>
                 ELSE FoldLeft(LAMBDA a, w : a \o sep \o w, Head(ws), Tail(ws))

(* position of a word in a list, counted from 0; -1 when it is not there *)
IndexOfD(list, w) == IF \E i \in DOMAIN list : list[i] = w
                     THEN (CHOOSE i \in DOMAIN list : list[i] = w /\ \A j \in 1..(i-1) : list[j] # w) - 1
                     ELSE -1
IndexOf(list, w) == IndexOfD(list, w)

SaltWord == <<109, 110, 101, 109, 111, 110, 105, 99>>           \* mnemonic
SeedOf(phrase, pass) == Pbkdf2(phrase, SaltWord \o pass, 2048)
=============================================================================
