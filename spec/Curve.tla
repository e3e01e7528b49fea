------------------------------- MODULE Curve --------------------------------
(***************************************************************************)
(* The group of points of y^2 = x^3 + b over the integers modulo a prime m *)
(* with m % 4 = 3.  A point is <<x, y>>; the point at infinity is <<>>.    *)
(* EcAdd and EcMul have java evaluators, see BigNat.                       *)
(***************************************************************************)
EXTENDS BigNat

Infinity == <<>>

Cube(x, m) == ModMul(ModMul(x, x, m), x, m)
OnCurve(pt, b, m) == /\ pt # Infinity
                     /\ Lt(pt[1], m) /\ Lt(pt[2], m)
                     /\ ModMul(pt[2], pt[2], m) = ModAdd(Cube(pt[1], m), b, m)

EcNeg(pt, m) == IF pt = Infinity THEN Infinity ELSE <<pt[1], ModNeg(pt[2], m)>>

(* the line through p and q with slope l *)
EcChord(p, q, l, m) ==
  LET x == ModSub(ModSub(ModMul(l, l, m), p[1], m), q[1], m)
      y == ModSub(ModMul(l, ModSub(p[1], x, m), m), p[2], m)
  IN  <<x, y>>

EcAddD(p, q, m) ==
  IF p = Infinity THEN q
  ELSE IF q = Infinity THEN p
  ELSE IF p[1] # q[1]
       THEN EcChord(p, q, ModMul(ModSub(q[2], p[2], m), ModInv(ModSub(q[1], p[1], m), m), m), m)
  ELSE IF p[2] = q[2] /\ p[2] # <<>>
       THEN EcChord(p, q, ModMul(ModMul(<<3>>, ModMul(p[1], p[1], m), m),
                                 ModInv(ModAdd(p[2], p[2], m), m), m), m)
  ELSE Infinity

EcAdd(p, q, m) == EcAddD(p, q, m)

RECURSIVE EcMulR(_, _, _, _)
EcMulR(k, p, m, i) ==                      \* (k shifted right by i bits) p
  IF i >= BitLen(k) THEN Infinity
  ELSE LET h == EcMulR(k, p, m, i + 1)
           d == EcAdd(h, h, m)
       IN  IF Bit(k, i) = 1 THEN EcAdd(d, p, m) ELSE d
EcMulD(k, p, m) == EcMulR(k, p, m, 0)
EcMul(k, p, m) == EcMulD(k, p, m)

(* square roots, as m % 4 = 3 *)
SqrtCandidate(a, m) == ModExp(a, DivMod(Add(m, <<1>>), <<4>>)[1], m)
IsSquare(a, m) == LET r == SqrtCandidate(a, m) IN ModMul(r, r, m) = a
HasX(x, b, m) == IsSquare(ModAdd(Cube(x, m), b, m), m)
Odd(y) == Bit(y, 0) = 1
LiftX(x, odd, b, m) ==
  LET r == SqrtCandidate(ModAdd(Cube(x, m), b, m), m)
  IN  <<x, IF Odd(r) = odd THEN r ELSE ModNeg(r, m)>>
=============================================================================
