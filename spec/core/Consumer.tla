------------------------------ MODULE Consumer ------------------------------
(* How a Number is consumed: its head and symbols are moved into the        *)
(* coefficients of a homographic function until it is one half or a         *)
(* coefficient has reached a quarter of the largest machine integer.        *)
EXTENDS Protocol

CONSTANT KMax      \* largest machine integer

VARIABLES kv,      \* ghost: the value that is consumed
          kc,      \* what remains of its fraction, Nil if special
          kco,     \* coefficients
          kres     \* "?", "none" (nothing left), "some" (stopped early), "panic"

kvars == <<kv, kc, kco, kres>>

KNil == << >>
KLimit == KMax \div 4
KFits(s) == \A i \in 1..Len(s) : -KMax - 1 <= s[i] /\ s[i] <= KMax

KStart(a) ==
    LET h == HeadOf(a)
    IN  /\ kv = a
        /\ kc = (IF h \in Specials THEN KNil ELSE CoreOf(a))
        /\ kco = (CASE h = "-" -> <<1, 0, 0, 1>>
                    [] h = "T" -> <<0, 1, 1, 0>>
                    [] h = "R" -> <<-1, 0, 0, 1>>
                    [] h = "G" -> <<0, -1, 1, 0>>
                    [] h = "Z" -> <<0, 0, 0, 1>>
                    [] h = "P" -> <<0, 1, 0, 1>>
                    [] h = "N" -> <<0, -1, 0, 1>>)
        /\ kres = (IF h \in Specials THEN "none" ELSE "?")

KNext ==
    /\ kres = "?"
    /\ LET s == SymOf(kc)
           odd == ~IsEven(kco[1]) \/ ~IsEven(kco[3])
           n == CASE s = Amplify -> (IF odd THEN <<kco[1], 2 * kco[2], kco[3], 2 * kco[4]>>
                                     ELSE <<Half(kco[1]), kco[2], Half(kco[3]), kco[4]>>)
                  [] s = Uncover -> <<kco[2], kco[1] + kco[2], kco[4], kco[3] + kco[4]>>
                  [] s = Ended -> kco
       IN  IF s = Ended THEN kres' = "none" /\ UNCHANGED <<kc, kco>>
           ELSE IF ~KFits(n) THEN kres' = "panic" /\ UNCHANGED <<kc, kco>>
           ELSE /\ kco' = n /\ kc' = After(kc)
                /\ kres' = (IF \E i \in 1..4 : Mag(n[i]) >= KLimit THEN "some" ELSE "?")
    /\ UNCHANGED kv

KDone == kres # "?" /\ UNCHANGED kvars

\* the coefficients at what remains are the value
KIdentity ==
    LET r == IF kc = KNil THEN OneHalf ELSE kc
    IN  kres # "panic" =>
            /\ Lin(kco[3], kco[4], r) # 0
            /\ Rat(Lin(kco[1], kco[2], r), Lin(kco[3], kco[4], r)) = kv
KNoPanic == kres # "panic"
KStops == /\ kres = "some" => \E i \in 1..4 : Mag(kco[i]) >= KLimit
          /\ kres = "none" => (kc = KNil \/ IsHalf(kc))
\* the function is one to one, so the remainder is determined by the result
KDeterminant == kc # KNil => kco[1] * kco[4] # kco[2] * kco[3]
KFinishes == <>(kres # "?")
=============================================================================
