------------------------------ MODULE Protocol ------------------------------
(* What a continued-logarithm representation means.                         *)
(*                                                                          *)
(* A rational is a pair <<p, q>> in lowest terms with q > 0. A Number is    *)
(* shown to the user as a head and, unless the head is special, a stream of *)
(* reduction symbols of a fraction strictly between zero and one.           *)
EXTENDS Num, Sequences

-----------------------------------------------------------------------------
(* Rationals                                                                *)

Zero == Lit(0)
One == Lit(1)

\* p / q in lowest terms, q # 0
Rat(p, q) ==
    IF Sgn(p) = 0 THEN <<Zero, One>>
    ELSE LET r == Coprime(Mag(p), Mag(q))
         IN  IF Sgn(p) = Sgn(q) THEN r ELSE <<Neg(r[1]), r[2]>>

RatNeg(v) == <<Neg(v[1]), v[2]>>
RatInv(v) == IF Sgn(v[1]) > 0 THEN <<v[2], v[1]>> ELSE <<Neg(v[2]), Neg(v[1])>>
RatCmp(v, w) == Cmp(Mul(v[1], w[2]), Mul(w[1], v[2]))

\* (a*v + b) as an integer over the denominator of v
Lin(a, b, v) == Add(Mul(a, v[1]), Mul(b, v[2]))
\* (a*v*w + b*v + c*w + d) as an integer over the product of the denominators
Bilin(a, b, c, d, v, w) ==
    Add(Mul(Add(Mul(a, v[1]), Mul(c, v[2])), w[1]), Mul(Add(Mul(b, v[1]), Mul(d, v[2])), w[2]))

-----------------------------------------------------------------------------
(* Heads: three special values and four primers                             *)

Specials == {"N", "Z", "P"}              \* -1, 0, 1
Primers == {"-", "T", "R", "G"}          \* none, Turn, Reflect, Ground

HeadOf(v) ==
    LET m == Cmp(Mag(v[1]), v[2])
    IN  IF Sgn(v[1]) = 0 THEN "Z"
        ELSE IF Sgn(v[1]) > 0 THEN (CASE m = 0 -> "P" [] m < 0 -> "-" [] m > 0 -> "T")
        ELSE (CASE m = 0 -> "N" [] m < 0 -> "R" [] m > 0 -> "G")

SpecialValue(h) == CASE h = "N" -> <<Neg(One), One>> [] h = "Z" -> <<Zero, One>> [] h = "P" -> <<One, One>>

\* the value that a primer and a fraction c in (0,1) stand for together
Primed(h, c) ==
    CASE h = "-" -> c
      [] h = "T" -> RatInv(c)
      [] h = "R" -> RatNeg(c)
      [] h = "G" -> RatNeg(RatInv(c))

\* the fraction in (0,1) behind the head of a value that is not special
CoreOf(v) ==
    LET h == HeadOf(v)
    IN  CASE h = "-" -> v
          [] h = "T" -> RatInv(v)
          [] h = "R" -> RatNeg(v)
          [] h = "G" -> RatNeg(RatInv(v))

-----------------------------------------------------------------------------
(* Symbols: 1 Amplify, 2 Uncover, 0 the end                                 *)

Amplify == 1
Uncover == 2
Ended == 0

IsHalf(c) == Cmp(Add(c[1], c[1]), c[2]) = 0

\* the symbol that a fraction in (0,1) delivers
SymOf(c) ==
    LET m == Cmp(Add(c[1], c[1]), c[2])
    IN  IF m < 0 THEN Amplify ELSE IF m > 0 THEN Uncover ELSE Ended

\* what remains of the fraction after it delivered its symbol s
Rest(c, s) ==
    CASE s = Amplify -> (IF IsEven(c[2]) THEN <<c[1], Half(c[2])>> ELSE <<Add(c[1], c[1]), c[2]>>)
      [] s = Uncover -> <<Sub(c[2], c[1]), c[1]>>
      [] s = Ended   -> c
After(c) == Rest(c, SymOf(c))

\* the fraction that delivers symbol s and then is c
Before(c, s) ==
    CASE s = Amplify -> (IF IsEven(c[1]) THEN <<Half(c[1]), c[2]>> ELSE <<c[1], Add(c[2], c[2])>>)
      [] s = Uncover -> <<c[2], Add(c[1], c[2])>>

OneHalf == <<One, Lit(2)>>

RECURSIVE Encode(_)
Encode(c) == IF IsHalf(c) THEN << >> ELSE <<SymOf(c)>> \o Encode(After(c))

RECURSIVE Decode(_)
Decode(s) == IF s = << >> THEN OneHalf ELSE Before(Decode(Tail(s)), Head(s))

\* walk along symbols s from position i: <<number of symbols that agree, remainder>>
RECURSIVE Walk(_, _, _)
Walk(c, s, i) ==
    IF i > Len(s) THEN <<i - 1, c>>
    ELSE IF s[i] # SymOf(c) THEN <<i - 1, c>>
    ELSE Walk(Rest(c, s[i]), s, i + 1)

\* how many extractions from both tell two fractions apart or show them equal, but no more than cap
RECURSIVE Deciding(_, _, _)
Deciding(c, d, cap) == IF cap <= 1 \/ SymOf(c) # SymOf(d) \/ IsHalf(c) THEN 1 ELSE 1 + Deciding(After(c), After(d), cap - 1)

\* order of two symbol sequences: the first difference decides, and every
\* Uncover before it reverses the order
RECURSIVE SeqCmp(_, _)
SeqCmp(s, t) ==
    LET a == IF s = << >> THEN Ended ELSE Head(s)
        b == IF t = << >> THEN Ended ELSE Head(t)
        rank(x) == CASE x = Amplify -> 0 [] x = Ended -> 1 [] x = Uncover -> 2
    IN  IF a # b THEN (IF rank(a) < rank(b) THEN -1 ELSE 1)
        ELSE IF a = Ended THEN 0
        ELSE IF a = Amplify THEN SeqCmp(Tail(s), Tail(t))
        ELSE -SeqCmp(Tail(s), Tail(t))
=============================================================================
