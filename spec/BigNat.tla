------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of any size, as big-endian sequences of bytes without   *)
(* leading zeros (zero is <<>>).  TLC's integers have 32 bits; everything  *)
(* the library computes has 256 or more.                                   *)
(*                                                                         *)
(* Every operator comes as a definition in TLA+ (suffix D) and as a name   *)
(* without suffix that means the same.  java/BigNatOv.java evaluates the   *)
(* names without suffix with java.math.BigInteger; SelfTest.tla compares   *)
(* the two.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

Byte == 0..255

RECURSIVE StripD(_)
StripD(s) == IF s # <<>> /\ s[1] = 0 THEN StripD(Tail(s)) ELSE s

Zeros(n) == [i \in 1..n |-> 0]

PadD(a, n) == IF Len(a) >= n THEN a ELSE Zeros(n - Len(a)) \o a

RECURSIVE NatD(_)
NatD(n) == IF n = 0 THEN <<>> ELSE Append(NatD(n \div 256), n % 256)

(* The i-th byte counted from the least significant one, which is byte 0. *)
Dig(a, i) == IF i < Len(a) THEN a[Len(a) - i] ELSE 0

Max2(x, y) == IF x > y THEN x ELSE y

RECURSIVE CmpR(_, _, _)
CmpR(a, b, i) == IF i < 0 THEN 0
                 ELSE IF Dig(a, i) > Dig(b, i) THEN 1
                 ELSE IF Dig(a, i) < Dig(b, i) THEN -1
                 ELSE CmpR(a, b, i - 1)
CmpD(a, b) == CmpR(a, b, Max2(Len(a), Len(b)) - 1)

RECURSIVE AddR(_, _, _, _)
AddR(a, b, i, c) ==
  IF i >= Max2(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Dig(a, i) + Dig(b, i) + c
       IN  Append(AddR(a, b, i + 1, s \div 256), s % 256)
AddD(a, b) == AddR(a, b, 0, 0)

RECURSIVE SubR(_, _, _, _)
SubR(a, b, i, c) ==
  IF i >= Len(a) THEN <<>>
  ELSE LET s == Dig(a, i) - Dig(b, i) - c
       IN  Append(SubR(a, b, i + 1, IF s < 0 THEN 1 ELSE 0), (s + 256) % 256)
SubD(a, b) == StripD(SubR(a, b, 0, 0))          \* for a >= b

RECURSIVE MulDigR(_, _, _, _)
MulDigR(a, d, i, c) ==
  IF i >= Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Dig(a, i) * d + c
       IN  Append(MulDigR(a, d, i + 1, s \div 256), s % 256)
MulDig(a, d) == StripD(MulDigR(a, d, 0, 0))

RECURSIVE MulR(_, _, _)
MulR(a, b, i) ==                                \* a times the last i bytes of b
  IF i = 0 THEN <<>>
  ELSE AddD(MulR(a, b, i - 1), StripD(MulDig(a, Dig(b, i - 1)) \o Zeros(i - 1)))
MulD(a, b) == MulR(a, b, Len(b))

(* Long division: <<quotient, remainder>>.                                 *)
RECURSIVE DivR(_, _, _)
DivR(a, b, i) ==                                \* the first i bytes of a by b
  IF i = 0 THEN << <<>>, <<>> >>
  ELSE LET p == DivR(a, b, i - 1)
           r == StripD(Append(p[2], a[i]))
           q == CHOOSE d \in Byte : /\ CmpD(MulDig(b, d), r) <= 0
                                    /\ CmpD(r, AddD(MulDig(b, d), b)) < 0
       IN  << StripD(Append(p[1], q)), SubD(r, MulDig(b, q)) >>
DivModD(a, b) == DivR(a, b, Len(a))
DivD(a, b) == DivModD(a, b)[1]
ModD(a, b) == DivModD(a, b)[2]

(* i-th bit, from the least significant one, which is bit 0 *)
Pow2(n) == 2 ^ n
BitD(a, i) == (Dig(a, i \div 8) \div Pow2(i % 8)) % 2
RECURSIVE BitLenByte(_)
BitLenByte(b) == IF b = 0 THEN 0 ELSE 1 + BitLenByte(b \div 2)
BitLenD(a) == IF a = <<>> THEN 0 ELSE 8 * (Len(a) - 1) + BitLenByte(a[1])

(* Arithmetic modulo m; arguments are below m. *)
ModAddD(a, b, m) == ModD(AddD(a, b), m)
ModSubD(a, b, m) == IF CmpD(a, b) >= 0 THEN SubD(a, b) ELSE SubD(AddD(a, m), b)
ModMulD(a, b, m) == ModD(MulD(a, b), m)
ModNegD(a, m) == IF a = <<>> THEN <<>> ELSE SubD(m, a)

RECURSIVE ModExpR(_, _, _, _)
ModExpR(a, e, m, i) ==                          \* i: bits of e still to do
  IF i = BitLenD(e) THEN ModD(<<1>>, m)
  ELSE LET h == ModExpR(a, e, m, i + 1)
           s == ModMulD(h, h, m)
       IN  IF BitD(e, i) = 1 THEN ModMulD(s, a, m) ELSE s
ModExpD(a, e, m) == ModExpR(a, e, m, 0)

(* Extended Euclid: t1 * a = r1 (mod m) throughout. *)
RECURSIVE InvR(_, _, _, _, _)
InvR(r0, r1, t0, t1, m) ==
  IF r1 = <<>> THEN t0
  ELSE LET d == DivModD(r0, r1)
       IN  InvR(r1, d[2], t1, ModSubD(t0, ModMulD(ModD(d[1], m), t1, m), m), m)
ModInvD(a, m) == InvR(m, a, <<>>, <<1>>, m)     \* for gcd(a, m) = 1

----------------------------------------------------------------------------
Strip(s) == StripD(s)
Pad(a, n) == PadD(a, n)
Nat2Big(n) == NatD(n)
Cmp(a, b) == CmpD(a, b)
Add(a, b) == AddD(a, b)
Sub(a, b) == SubD(a, b)
Mul(a, b) == MulD(a, b)
DivMod(a, b) == DivModD(a, b)
Mod(a, b) == ModD(a, b)
Bit(a, i) == BitD(a, i)
BitLen(a) == BitLenD(a)
ModAdd(a, b, m) == ModAddD(a, b, m)
ModSub(a, b, m) == ModSubD(a, b, m)
ModMul(a, b, m) == ModMulD(a, b, m)
ModNeg(a, m) == ModNegD(a, m)
ModExp(a, e, m) == ModExpD(a, e, m)
ModInv(a, m) == ModInvD(a, m)

Lt(a, b) == Cmp(a, b) < 0
Le(a, b) == Cmp(a, b) <= 0
=============================================================================
