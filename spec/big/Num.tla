-------------------------------- MODULE Num --------------------------------
(* The integers of the specification, unbounded version. An integer is a    *)
(* sequence <<sign, limb, limb, ...>>: sign -1, 0 or 1, limbs little-endian *)
(* in base 10^4, no leading zero limbs; zero is <<0>>. TLC evaluates these  *)
(* operators with java/NumOverrides.java; the definitions below are what    *)
(* the overrides must compute, and mc/NumTest.tla compares the two.         *)
EXTENDS Integers, Sequences

Base == 10000

RECURSIVE LimbsOf(_)
LimbsOf(m) == IF m = 0 THEN << >> ELSE <<m % Base>> \o LimbsOf(m \div Base)

Signed(s, limbs) == IF limbs = << >> THEN <<0>> ELSE <<s>> \o limbs
Limbs(a) == Tail(a)
Sgn(a) == Head(a)

Lit(i) == IF i < 0 THEN Signed(-1, LimbsOf(-i)) ELSE Signed(1, LimbsOf(i))

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Longer(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE Trim(_)
Trim(l) == IF l = << >> THEN l
           ELSE IF l[Len(l)] = 0 THEN Trim(SubSeq(l, 1, Len(l) - 1)) ELSE l

\* comparison of magnitudes
RECURSIVE MagCmpFrom(_, _, _)
MagCmpFrom(a, b, i) ==
    IF i = 0 THEN 0
    ELSE IF Limb(a, i) < Limb(b, i) THEN -1
    ELSE IF Limb(a, i) > Limb(b, i) THEN 1
    ELSE MagCmpFrom(a, b, i - 1)
MagCmp(a, b) == MagCmpFrom(a, b, Longer(a, b))

RECURSIVE MagAddFrom(_, _, _, _)
MagAddFrom(a, b, i, carry) ==
    IF i > Longer(a, b) THEN (IF carry = 0 THEN << >> ELSE <<carry>>)
    ELSE LET s == Limb(a, i) + Limb(b, i) + carry
         IN  <<s % Base>> \o MagAddFrom(a, b, i + 1, s \div Base)
MagAdd(a, b) == MagAddFrom(a, b, 1, 0)

\* a - b, for a >= b
RECURSIVE MagSubFrom(_, _, _, _)
MagSubFrom(a, b, i, borrow) ==
    IF i > Len(a) THEN << >>
    ELSE LET s == Limb(a, i) - Limb(b, i) - borrow
         IN  <<s % Base>> \o MagSubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
MagSub(a, b) == Trim(MagSubFrom(a, b, 1, 0))

RECURSIVE MagScaleFrom(_, _, _, _)
MagScaleFrom(a, k, i, carry) ==
    IF i > Len(a) THEN (IF carry = 0 THEN << >> ELSE <<carry>>)
    ELSE LET s == a[i] * k + carry
         IN  <<s % Base>> \o MagScaleFrom(a, k, i + 1, s \div Base)
RECURSIVE MagMul(_, _)
MagMul(a, b) ==
    IF a = << >> \/ b = << >> THEN << >>
    ELSE Trim(MagAdd(MagScaleFrom(a, b[1], 1, 0), <<0>> \o MagMul(a, Tail(b))))

Neg(a) == Signed(-Sgn(a), Limbs(a))

Add(a, b) ==
    IF Sgn(a) = 0 THEN b
    ELSE IF Sgn(b) = 0 THEN a
    ELSE IF Sgn(a) = Sgn(b) THEN Signed(Sgn(a), MagAdd(Limbs(a), Limbs(b)))
    ELSE IF MagCmp(Limbs(a), Limbs(b)) >= 0
         THEN Signed(Sgn(a), MagSub(Limbs(a), Limbs(b)))
         ELSE Signed(Sgn(b), MagSub(Limbs(b), Limbs(a)))
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == Signed(Sgn(a) * Sgn(b), MagMul(Limbs(a), Limbs(b)))

Cmp(a, b) == IF Sgn(a) < Sgn(b) THEN -1
             ELSE IF Sgn(a) > Sgn(b) THEN 1
             ELSE Sgn(a) * MagCmp(Limbs(a), Limbs(b))
Mag(a) == IF Sgn(a) < 0 THEN Neg(a) ELSE a
IsEven(a) == IF Len(a) = 1 THEN TRUE ELSE a[2] % 2 = 0

RECURSIVE MagHalf(_, _)
MagHalf(a, carry) ==      \* big-endian walk
    IF a = << >> THEN << >>
    ELSE LET s == carry * Base + a[Len(a)]
         IN  MagHalf(SubSeq(a, 1, Len(a) - 1), s % 2) \o <<s \div 2>>
Half(a) == Signed(Sgn(a), Trim(MagHalf(Limbs(a), 0)))    \* of an even integer

\* <<p, q>> divided by their greatest common divisor, for p, q > 0: walk down
\* with subtraction to p = q, then walk back up from 1/1 (Stern-Brocot, with
\* runs of common factors of two removed first)
RECURSIVE Coprime(_, _)
Coprime(p, q) ==
    IF IsEven(p) /\ IsEven(q) THEN Coprime(Half(p), Half(q))
    ELSE CASE Cmp(p, q) = 0 -> <<Lit(1), Lit(1)>>
           [] Cmp(p, q) < 0 -> LET r == Coprime(p, Sub(q, p)) IN <<r[1], Add(r[1], r[2])>>
           [] Cmp(p, q) > 0 -> LET r == Coprime(Sub(p, q), q) IN <<Add(r[1], r[2]), r[2]>>
=============================================================================
