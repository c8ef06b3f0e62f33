------------------------------ MODULE NumTest ------------------------------
(* The Java versions of the operators of Num against their definitions. The *)
(* module NumPure is a copy of spec/big/Num.tla made by the check; TLC does *)
(* not override its operators.                                              *)
EXTENDS Num, TLC, FiniteSets

P == INSTANCE NumPure

VARIABLES a, b

L == {0, 1, 2, 4999, 5000, 9999}
Top == {1, 9998, 9999}
Samples == {P!Lit(i) : i \in -5..5}
           \cup { <<s, l, t>> : s \in {-1, 1}, l \in {0, 1, 5000, 9999}, t \in Top }
           \cup { <<s, l, m, t>> : s \in {-1, 1}, l \in {0, 1, 9999}, m \in {0, 5000, 9999}, t \in {1, 9999} }
           \cup { <<s, 5807, 5477, 368, 3372, t>> : s \in {-1, 1}, t \in {922, 1, 9999} }

\* the definitions themselves, against TLC's integers
Ints == (-30..30) \cup {9999, 10000, 10001, -9999, -10000, 12345, 46340, -20000}
RECURSIVE Back(_, _)
Back(l, i) == IF i > Len(l) THEN 0 ELSE l[i] + 10000 * Back(l, i + 1)
ToInt(v) == v[1] * Back(Tail(v), 1)
ASSUME \A i, j \in Ints :
    /\ ToInt(P!Lit(i)) = i
    /\ P!Add(P!Lit(i), P!Lit(j)) = P!Lit(i + j)
    /\ P!Sub(P!Lit(i), P!Lit(j)) = P!Lit(i - j)
    /\ P!Mul(P!Lit(i), P!Lit(j)) = P!Lit(i * j)
    /\ P!Cmp(P!Lit(i), P!Lit(j)) = (IF i < j THEN -1 ELSE IF i > j THEN 1 ELSE 0)
    /\ P!IsEven(P!Lit(i)) = (i % 2 = 0)
    /\ P!Half(P!Lit(2 * i)) = P!Lit(i)

Init == a \in Samples /\ b = P!Lit(0)
Next == b' \in Samples /\ UNCHANGED a

\* the subtractive definition of Coprime is only practical for numbers of similar size
Small == {P!Lit(i) : i \in {1, 2, 3, 12, 18, 25, 96, 110}}

Agree ==
    /\ Add(a, b) = P!Add(a, b)
    /\ Sub(a, b) = P!Sub(a, b)
    /\ Mul(a, b) = P!Mul(a, b)
    /\ Neg(a) = P!Neg(a)
    /\ Cmp(a, b) = P!Cmp(a, b)
    /\ Sgn(a) = P!Sgn(a)
    /\ Mag(a) = P!Mag(a)
    /\ IsEven(a) = P!IsEven(a)
    /\ P!IsEven(a) => Half(a) = P!Half(a)
    /\ Half(Add(a, a)) = a
    /\ P!Sgn(a) # 0 => LET m == P!Mag(a) IN
          /\ Coprime(Mul(m, Lit(6)), Mul(m, Lit(4))) = <<Lit(3), Lit(2)>>
          /\ Coprime(Mul(m, Lit(6)), Mul(m, Lit(4))) = P!Coprime(P!Mul(m, P!Lit(6)), P!Mul(m, P!Lit(4)))
          /\ P!Sgn(b) # 0 =>      \* lowest terms of the same fraction
               LET n == P!Mag(b)
                   r == Coprime(m, n)
               IN  /\ Mul(r[1], n) = Mul(r[2], m)
                   /\ Coprime(r[1], r[2]) = r
                   /\ ~(P!IsEven(r[1]) /\ P!IsEven(r[2]))
ASSUME \A u, v \in Small : Coprime(u, v) = P!Coprime(u, v)
ASSUME \A i \in Ints : Lit(i) = P!Lit(i)
=============================================================================
