------------------------------- MODULE Budget -------------------------------
(* How long a computation with machine-word coefficients cannot overflow.   *)
(*                                                                          *)
(* Reading a symbol of an operand and delivering a symbol each at most      *)
(* double the largest coefficient. So an operation with coefficients up to  *)
(* m on operands with l symbols together can read them all and deliver n    *)
(* symbols of its own while m * 2^(l + n) stays up to RoomLimit, a fixed    *)
(* fraction of the largest machine integer. Room is that n; below zero the  *)
(* operation may overflow while it is being built.                          *)
EXTENDS Protocol

CONSTANT RoomLimit

MaxMag(ints) ==
    LET RECURSIVE Max(_, _)
        Max(i, m) == IF i > Len(ints) THEN m
                     ELSE Max(i + 1, IF Cmp(Mag(ints[i]), m) > 0 THEN Mag(ints[i]) ELSE m)
    IN  Max(1, One)

\* how often m can be doubled
RECURSIVE Doublings(_)
Doublings(m) == IF Cmp(Add(m, m), RoomLimit) > 0 THEN 0 ELSE 1 + Doublings(Add(m, m))

\* the number of symbols of a fraction, but no more than cap
RECURSIVE Length(_, _)
Length(c, cap) == IF cap <= 0 \/ IsHalf(c) THEN 0 ELSE 1 + Length(After(c), cap - 1)

\* for coefficients ints and operands with the fractions in cores
Room(ints, cores) ==
    LET m == MaxMag(ints)
        d == Doublings(m)
        RECURSIVE Left(_, _)
        Left(i, n) == IF i > Len(cores) \/ n < 0 THEN n ELSE Left(i + 1, n - Length(cores[i], n + 1))
    IN  IF Cmp(m, RoomLimit) > 0 THEN -1 ELSE Left(1, d)

Unbounded == 1000000000     \* every extraction is safe

\* plus or minus x or 1/x: what is read is delivered, so nothing grows
Zeros(ints) == \A i \in 1..Len(ints) : Sgn(ints[i]) = 0
Unit(c) == \/ Zeros(<<c[2], c[3]>>) /\ Mag(c[1]) = Mag(c[4]) /\ ~Zeros(<<c[1]>>)
           \/ Zeros(<<c[1], c[4]>>) /\ Mag(c[2]) = Mag(c[3]) /\ ~Zeros(<<c[2]>>)

OneOf(v) == IF HeadOf(v) \in Specials THEN << >> ELSE <<CoreOf(v)>>
Greater(m, n) == IF m > n THEN m ELSE n

\* Room for a function with coefficients c of v; constants do not look at their operand,
\* and what remains of a function at a special value is a fraction
HomRoom(c, v) == IF Zeros(<<c[1], c[3]>>) THEN Unbounded
                 ELSE IF Cmp(MaxMag(c), RoomLimit) > 0 THEN -1
                 ELSE IF HeadOf(v) \in Specials \/ Unit(c) THEN Unbounded
                 ELSE Room(c, OneOf(v))

\* Room for a combination with coefficients c of v and w; at a special value it is a function
ComRoom(c, v, w) ==
    LET r == Room(c, OneOf(v) \o OneOf(w))
    IN  IF r < 0 /\ Cmp(MaxMag(c), RoomLimit) > 0 THEN r
        ELSE IF HeadOf(v) \in Specials
        THEN Greater(r, HomRoom(<<Lin(c[1], c[3], v), Lin(c[2], c[4], v), Lin(c[5], c[7], v), Lin(c[6], c[8], v)>>, w))
        ELSE IF HeadOf(w) \in Specials
        THEN Greater(r, HomRoom(<<Lin(c[1], c[2], w), Lin(c[3], c[4], w), Lin(c[5], c[6], w), Lin(c[7], c[8], w)>>, v))
        ELSE r
=============================================================================
