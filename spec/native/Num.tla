-------------------------------- MODULE Num --------------------------------
(* The integers of the specification, native version: TLC's own (32 bit)    *)
(* integers, for exhaustive checking within small bounds. spec/big/Num.tla  *)
(* has the same interface over unbounded integers, for traces of the code.  *)
EXTENDS Integers

Lit(i) == i                        \* an integer written in the specification
Add(a, b) == a + b
Sub(a, b) == a - b
Mul(a, b) == a * b
Neg(a) == -a
Cmp(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
Sgn(a) == Cmp(a, 0)
Mag(a) == IF a < 0 THEN -a ELSE a  \* magnitude
IsEven(a) == a % 2 = 0
Half(a) == IF a < 0 THEN -((-a) \div 2) ELSE a \div 2    \* of an even integer
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* <<p, q>> divided by their greatest common divisor, for p, q > 0
Coprime(p, q) == LET g == Gcd(p, q) IN <<p \div g, q \div g>>
=============================================================================
