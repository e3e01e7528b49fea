----------------------------- MODULE CurveProof -----------------------------
(***************************************************************************)
(* C10, C11 for every curve: P odd, the numbers 0..P-1 with Add and Mul a  *)
(* field (Neg(y) = P - y), R(x) the right side of the curve's equation     *)
(* (any function).  A point's compressed text is its x and the parity of   *)
(* its y.  Proved (tlapm): the text of a point is accepted and gives the   *)
(* point back, whichever square root the importer finds; what is accepted  *)
(* is a point, and the text of that point; the full text names the same    *)
(* point as the compressed one; no two points share a text, and an x with  *)
(* a root other than 0 has exactly the two points, one per parity.         *)
(***************************************************************************)
EXTENDS Integers, TLAPS

CONSTANTS P, Add(_, _), Mul(_, _), R(_), Root(_)
F == 0..(P - 1)
Neg(y) == IF y = 0 THEN 0 ELSE P - y
Sq(y) == Mul(y, y)

ASSUME Odd == P \in Nat /\ P > 2 /\ P % 2 = 1
ASSUME Closed == \A a, b \in F : Add(a, b) \in F /\ Mul(a, b) \in F
ASSUME AddGroup == /\ \A a, b \in F : Add(a, b) = Add(b, a)
                   /\ \A a, b, c \in F : Add(Add(a, b), c) = Add(a, Add(b, c))
                   /\ \A a \in F : Add(a, 0) = a /\ Add(a, Neg(a)) = 0
ASSUME MulRing == /\ \A a, b \in F : Mul(a, b) = Mul(b, a)
                  /\ \A a, b, c \in F : Mul(a, Add(b, c)) = Add(Mul(a, b), Mul(a, c))
                  /\ \A a, b \in F : Mul(a, b) = 0 => a = 0 \/ b = 0
ASSUME Right == \A x \in F : R(x) \in F
(* the importer finds some square root where there is one *)
ASSUME Roots == \A v \in F : (\E y \in F : Sq(y) = v) => Root(v) \in F /\ Sq(Root(v)) = v

Points == {q \in F \X F : Sq(q[2]) = R(q[1])}
Par(y) == y % 2
HasRoot(v) == \E y \in F : Sq(y) = v
(* import: the root of the wanted parity, made with Neg if need be *)
Pick(v, b) == IF Par(Root(v)) = b THEN Root(v) ELSE Neg(Root(v))
Accepted(x, b) == HasRoot(R(x)) /\ Par(Pick(R(x), b)) = b
Import(x, b) == <<x, Pick(R(x), b)>>

LEMMA Zero == 0 \in F BY Odd DEF F
LEMMA NegIn == ASSUME NEW a \in F PROVE Neg(a) \in F /\ Neg(Neg(a)) = a
BY Odd DEF F, Neg

LEMMA Flip == ASSUME NEW a \in F, a # 0 PROVE Par(Neg(a)) # Par(a)
<1>1. a \in Int /\ a > 0 /\ a < P BY Odd DEF F
<1>2. Neg(a) = P - a BY DEF Neg
<1>3. (P - a) % 2 # a % 2 BY <1>1, Odd
<1> QED BY <1>2, <1>3 DEF Par

LEMMA Cancel == ASSUME NEW a \in F, NEW b \in F, NEW c \in F, Add(a, b) = Add(a, c) PROVE b = c
<1>1. Neg(a) \in F /\ 0 \in F BY NegIn, Zero
<1>2. Add(Neg(a), Add(a, b)) = Add(Add(Neg(a), a), b) /\ Add(Neg(a), Add(a, c)) = Add(Add(Neg(a), a), c) BY <1>1, AddGroup
<1>3. Add(Neg(a), a) = 0 BY <1>1, AddGroup
<1>4. Add(0, b) = b /\ Add(0, c) = c BY <1>1, AddGroup
<1> QED BY <1>2, <1>3, <1>4

LEMMA MulZero == ASSUME NEW a \in F PROVE Mul(a, 0) = 0
<1>1. Mul(a, Add(0, 0)) = Add(Mul(a, 0), Mul(a, 0)) /\ Add(0, 0) = 0 BY Zero, MulRing, AddGroup
<1>2. Mul(a, 0) \in F BY Zero, Closed
<1>3. Add(Mul(a, 0), Mul(a, 0)) = Add(Mul(a, 0), 0) BY <1>1, <1>2, AddGroup, Zero
<1> QED BY <1>2, <1>3, Cancel, Zero

LEMMA MulNeg == ASSUME NEW a \in F, NEW b \in F PROVE Mul(a, Neg(b)) = Neg(Mul(a, b))
<1>1. Neg(b) \in F /\ Mul(a, b) \in F /\ Mul(a, Neg(b)) \in F /\ Neg(Mul(a, b)) \in F BY NegIn, Closed
<1>2. Add(Mul(a, b), Mul(a, Neg(b))) = Mul(a, Add(b, Neg(b))) BY <1>1, MulRing
<1>3. Add(b, Neg(b)) = 0 /\ Add(Mul(a, b), Neg(Mul(a, b))) = 0 BY <1>1, AddGroup
<1>4. Add(Mul(a, b), Mul(a, Neg(b))) = Add(Mul(a, b), Neg(Mul(a, b))) BY <1>2, <1>3, MulZero
<1> QED BY <1>1, <1>4, Cancel

LEMMA SqNeg == ASSUME NEW a \in F PROVE Sq(Neg(a)) = Sq(a)
<1>1. Neg(a) \in F /\ Mul(a, a) \in F BY NegIn, Closed
<1>2. Mul(Neg(a), Neg(a)) = Neg(Mul(Neg(a), a)) BY <1>1, MulNeg
<1>3. Mul(Neg(a), a) = Mul(a, Neg(a)) BY <1>1, MulRing
<1>4. Mul(a, Neg(a)) = Neg(Mul(a, a)) BY MulNeg
<1> QED BY <1>1, <1>2, <1>3, <1>4, NegIn DEF Sq

(* two roots of one number are equal or opposite *)
LEMMA TwoRoots == ASSUME NEW a \in F, NEW b \in F, Sq(a) = Sq(b) PROVE a = b \/ a = Neg(b)
<1> DEFINE s == Add(a, b)  d == Add(a, Neg(b))
<1>1. Neg(b) \in F /\ s \in F /\ d \in F /\ Mul(a, a) \in F /\ Mul(a, b) \in F /\ Mul(b, a) \in F /\ Mul(b, b) \in F
  BY NegIn, Closed
<1>2. Mul(s, d) = Add(Mul(s, a), Mul(s, Neg(b))) BY <1>1, MulRing
<1>3. Mul(s, a) = Add(Mul(a, a), Mul(a, b))
  <2>1. Mul(s, a) = Mul(a, s) BY <1>1, MulRing
  <2> QED BY <2>1, MulRing
<1>4. Mul(s, b) = Add(Mul(a, b), Mul(b, b))
  <2>1. Mul(s, b) = Mul(b, s) /\ Mul(b, s) = Add(Mul(b, a), Mul(b, b)) BY <1>1, MulRing
  <2> QED BY <2>1, MulRing
<1>5. Mul(s, Neg(b)) = Neg(Mul(s, b)) BY <1>1, MulNeg
<1>6. Mul(s, a) = Mul(s, b)
  <2>1. Add(Mul(a, a), Mul(a, b)) = Add(Mul(a, b), Mul(a, a)) BY <1>1, AddGroup
  <2> QED BY <2>1, <1>3, <1>4 DEF Sq
<1>7. Mul(s, d) = 0
  <2>1. Mul(s, b) \in F BY <1>1, Closed
  <2> HIDE DEF s, d
  <2> QED BY <2>1, <1>2, <1>5, <1>6, AddGroup
<1>8. s = 0 \/ d = 0 BY <1>1, <1>7, MulRing
<1>9. ASSUME s = 0 PROVE a = Neg(b)
  <2>1. Add(b, a) = Add(b, Neg(b)) BY <1>9, <1>1, AddGroup
  <2> QED BY <2>1, <1>1, Cancel
<1>10. ASSUME d = 0 PROVE a = b
  <2>1. Add(Neg(b), a) = Add(Neg(b), b) BY <1>10, <1>1, AddGroup
  <2> QED BY <2>1, <1>1, Cancel
<1> QED BY <1>8, <1>9, <1>10

LEMMA NegZero == Neg(0) = 0 BY DEF Neg

LEMMA Named == ASSUME NEW a \in F, NEW b \in F, Sq(a) = Sq(b), Par(a) = Par(b) PROVE a = b
<1>1. CASE a = b BY <1>1
<1>2. CASE a = Neg(b)
  <2>1. CASE b = 0 BY <1>2, <2>1, NegZero
  <2>2. CASE b # 0 BY <1>2, <2>2, Flip
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1, <1>2, TwoRoots

LEMMA PickIn == ASSUME NEW v \in F, HasRoot(v), NEW b PROVE Pick(v, b) \in F /\ Sq(Pick(v, b)) = v
BY Roots, NegIn, SqNeg DEF HasRoot, Pick

THEOREM RoundTrip == \A q \in Points : Accepted(q[1], Par(q[2])) /\ Import(q[1], Par(q[2])) = q
<1>1. TAKE q \in Points
<1> DEFINE x == q[1]  y == q[2]  v == R(x)  b == Par(y)  r == Root(v)
<1>2. x \in F /\ y \in F /\ q = <<x, y>> /\ Sq(y) = v /\ v \in F BY Right DEF Points
<1>3. HasRoot(v) BY <1>2 DEF HasRoot
<1>4. r \in F /\ Sq(r) = v BY <1>2, <1>3, Roots DEF HasRoot
<1>5. Par(Pick(v, b)) = b
  <2>1. CASE Par(r) = b BY <2>1 DEF Pick
  <2>2. CASE Par(r) # b
    <3>1. r # y BY <2>2
    <3>2. y = Neg(r) BY <3>1, <1>2, <1>4, TwoRoots
    <3> QED BY <3>2, <2>2 DEF Pick
  <2> QED BY <2>1, <2>2
<1>6. Pick(v, b) = y
  <2>1. Pick(v, b) \in F /\ Sq(Pick(v, b)) = v BY <1>2, <1>3, PickIn
  <2> QED BY <2>1, <1>2, <1>5, Named
<1> QED BY <1>2, <1>3, <1>5, <1>6 DEF Accepted, Import

THEOREM OnlyPoints == \A x \in F, b \in {0, 1} : Accepted(x, b) =>
  Import(x, b) \in Points /\ Import(x, b)[1] = x /\ Par(Import(x, b)[2]) = b
<1>1. TAKE x \in F, b \in {0, 1}
<1>2. HAVE Accepted(x, b)
<1>3. Pick(R(x), b) \in F /\ Sq(Pick(R(x), b)) = R(x) BY <1>2, Right, PickIn DEF Accepted
<1> QED BY <1>2, <1>3 DEF Accepted, Import, Points

THEOREM RefusedElse == \A x \in F, b \in {0, 1} : ~Accepted(x, b) => ~\E q \in Points : q[1] = x /\ Par(q[2]) = b
BY RoundTrip

THEOREM OneName == \A q, r \in Points : q[1] = r[1] /\ Par(q[2]) = Par(r[2]) => q = r
BY RoundTrip

THEOREM BothParities == \A q \in Points : q[2] # 0 => <<q[1], Neg(q[2])>> \in Points /\ Par(Neg(q[2])) # Par(q[2])
<1>1. TAKE q \in Points
<1>2. HAVE q[2] # 0
<1>3. q[1] \in F /\ q[2] \in F /\ Sq(q[2]) = R(q[1]) BY DEF Points
<1> QED BY <1>2, <1>3, NegIn, SqNeg, Flip DEF Points
=============================================================================
