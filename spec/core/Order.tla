------------------------------- MODULE Order -------------------------------
(* How two Numbers are compared: by their heads, then symbol by symbol. An  *)
(* Uncover in both, like a reciprocal or a change of sign, reverses the     *)
(* order of what follows.                                                   *)
EXTENDS Protocol

VARIABLES v, w,      \* ghost: the two values
          c, d,      \* what remains of the two fractions, Nil if special
          flip,      \* 1, or -1 if the order of the remainders is reversed
          answer,    \* "?" until known
          reads      \* history: symbols extracted from each

ovars == <<v, w, c, d, flip, answer, reads>>

ONil == << >>

\* rank of the interval or point that a head stands for
Rank(h) == CASE h = "G" -> 1 [] h = "N" -> 2 [] h = "R" -> 3 [] h = "Z" -> 4
             [] h = "-" -> 5 [] h = "P" -> 6 [] h = "T" -> 7

OStart(a, b) ==
    LET core(z) == IF HeadOf(z) \in Specials THEN ONil ELSE CoreOf(z)
    IN  /\ v = a /\ w = b /\ c = core(a) /\ d = core(b) /\ flip = 0 /\ answer = "?" /\ reads = 0

Sign(m) == CASE m < 0 -> "lt" [] m = 0 -> "eq" [] m > 0 -> "gt"

CompareHeads ==
    /\ flip = 0 /\ answer = "?"
    /\ LET g == HeadOf(v)
           h == HeadOf(w)
       IN  IF g # h THEN answer' = Sign(Rank(g) - Rank(h)) /\ UNCHANGED flip
           ELSE IF g \in Specials THEN answer' = "eq" /\ UNCHANGED flip
           ELSE flip' = (IF g \in {"T", "R"} THEN -1 ELSE 1) /\ UNCHANGED answer
    /\ UNCHANGED <<v, w, c, d, reads>>

SymRank(s) == CASE s = Amplify -> 1 [] s = Ended -> 2 [] s = Uncover -> 3

CompareSymbols ==
    /\ flip # 0 /\ answer = "?"
    /\ LET s == SymOf(c)
           t == SymOf(d)
       IN  IF s # t THEN answer' = Sign(flip * (SymRank(s) - SymRank(t))) /\ UNCHANGED <<c, d, flip>>
           ELSE IF s = Ended THEN answer' = "eq" /\ UNCHANGED <<c, d, flip>>
           ELSE /\ c' = After(c) /\ d' = After(d) /\ UNCHANGED answer
                /\ flip' = (IF s = Uncover THEN -flip ELSE flip)
    /\ reads' = reads + 1
    /\ UNCHANGED <<v, w>>

ODone == answer # "?" /\ UNCHANGED ovars
ONext == CompareHeads \/ CompareSymbols

\* the order still to be found is the order of the values
OSound == /\ answer # "?" => answer = Sign(RatCmp(v, w))
          /\ (answer = "?" /\ flip # 0) => flip * RatCmp(c, d) = RatCmp(v, w)
\* nothing is read beyond the first difference, and nothing at all if the heads differ or are special
OReads == answer # "?" => reads = (IF HeadOf(v) # HeadOf(w) \/ HeadOf(v) \in Specials THEN 0 ELSE Deciding(CoreOf(v), CoreOf(w), 1000))
OFinishes == <>(answer # "?")
=============================================================================
