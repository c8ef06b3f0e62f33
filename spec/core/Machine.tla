------------------------------ MODULE Machine ------------------------------
(* How the library computes: the coefficient machines behind a Number.      *)
(*                                                                          *)
(* One behaviour is the life of one Number: it is built from a ratio, a     *)
(* homographic function or a combination, delivers its head, then delivers  *)
(* symbols on demand until it has reported its end. Operands are given by   *)
(* their exact remainder and deliver symbols as Protocol says: by induction *)
(* over the depth of an expression, what is shown here for one operation    *)
(* holds for trees of operations.                                           *)
(*                                                                          *)
(* Coefficients are machine words, WMin..WMax. An operation whose exact     *)
(* result does not fit ends the behaviour in phase "panic".                 *)
(*                                                                          *)
(* The ghost variables goal and core say what the abstract Number has to    *)
(* do; AbsStep is the abstract behaviour and Sound the abstraction          *)
(* invariant.                                                               *)
EXTENDS Budget

CONSTANTS WMax,      \* largest machine integer; the smallest is -WMax - 1
          AfterEnd   \* how many extractions after the end are followed

VARIABLES ph,        \* phase, see Phases
          co,        \* coefficients: 4 (homographic), 8 (combination) or none
          x, y,      \* operands' remainders, in (0,1), or Nil
          rt,        \* numerator and denominator of the plain ratio, or Nil
          head,      \* "?" until delivered
          sym,       \* the symbol delivered by the last step, or -1
          ends,      \* number of times the end was reported
          goal,      \* ghost: the exact value, or Nil for a zero denominator
          core,      \* ghost: what the delivered head leaves to deliver
          room       \* ghost: how many more extractions cannot overflow, see Budget

mvars == <<ph, co, x, y, rt, head, sym, ends, goal, core, room>>

Nil == << >>
Endless == Unbounded

Phases == {"pick",         \* before the operation is chosen
           "ratio-new",    \* rt has signed integers: classify
           "hom-prime",    \* co, x: looking for the head
           "hom-run",      \* co, x: looking for the next symbol
           "com-prime", "com-run",
           "ratio-run",    \* rt: a plain ratio delivering symbols
           "idle",         \* between extractions of a Number (see Demand)
           "special", "over", "div0", "panic", "logic"}

Final == {"special", "over", "div0", "panic", "logic"}

-----------------------------------------------------------------------------
(* Machine words                                                            *)

WMin == Neg(Add(WMax, One))
UMax == Add(WMax, Add(WMax, One))        \* largest unsigned word
Fit(v) == Cmp(v, WMin) >= 0 /\ Cmp(v, WMax) <= 0
FitU(v) == Sgn(v) >= 0 /\ Cmp(v, UMax) <= 0
Fits(s) == \A i \in 1..Len(s) : Fit(s[i])
Twice(v) == Add(v, v)
Evens(s) == \A i \in 1..Len(s) : IsEven(s[i])

-----------------------------------------------------------------------------
(* Fractions n/d with d of any sign, also 1/0, used in range analysis       *)

\* put the sign into the numerator; k/0 becomes +-1/0; 0/d becomes 0/1
Normal(f) ==
    LET n == IF Sgn(f[2]) = 0 THEN Lit(Sgn(f[1])) ELSE f[1]
        g == IF Sgn(f[2]) < 0 THEN <<Neg(n), Neg(f[2])>> ELSE <<n, f[2]>>
    IN  IF Sgn(g[1]) = 0 THEN <<Zero, One>> ELSE g
FracCmp(f, g) == Cmp(Mul(f[1], g[2]), Mul(g[1], f[2]))

\* <<min, max>> of a range and one more fraction, all of them normalized
Widen(r, f) ==
    IF FracCmp(f, r[1]) < 0 THEN <<f, r[2]>>
    ELSE IF FracCmp(f, r[2]) > 0 THEN <<r[1], f>>
    ELSE r

\* order of a normalized fraction (possibly +-1/0) and an integer or a half
CmpInt(f, i) == IF Sgn(f[2]) = 0 THEN Sgn(f[1]) ELSE Cmp(f[1], Mul(Lit(i), f[2]))
CmpHalf(f) == IF Sgn(f[2]) = 0 THEN Sgn(f[1]) ELSE Cmp(Twice(f[1]), f[2])
\* the library doubles the numerator only if the denominator is odd
HalfFits(f) == IsEven(f[2]) \/ Fit(Twice(f[1]))

-----------------------------------------------------------------------------
(* Plain ratios                                                             *)

Fail(p) == /\ ph' = p /\ sym' = -1
           /\ UNCHANGED <<co, x, y, rt, head, ends, goal, core, room>>

\* deliver head h; s is the new phase
Deliver(h, s) ==
    /\ head' = h /\ sym' = -1 /\ ph' = s
    /\ core' = IF goal = Nil THEN Nil ELSE IF HeadOf(goal) \in Specials THEN Nil ELSE CoreOf(goal)
    /\ UNCHANGED <<ends, goal, room>>

RatioNew ==
    /\ ph = "ratio-new"
    /\ IF Sgn(rt[2]) = 0 THEN Fail("div0")
       ELSE LET pos == (Sgn(rt[1]) >= 0) = (Sgn(rt[2]) >= 0)
                n == Mag(rt[1])
                d == Mag(rt[2])
                h == IF Sgn(n) = 0 THEN "Z"
                     ELSE IF Cmp(n, d) = 0 THEN (IF pos THEN "P" ELSE "N")
                     ELSE IF Cmp(n, d) > 0 THEN (IF pos THEN "T" ELSE "G")
                     ELSE (IF pos THEN "-" ELSE "R")
            IN  IF ~(FitU(n) /\ FitU(d)) THEN Fail("panic")
                ELSE IF head = "?"
                THEN /\ Deliver(h, IF h \in Specials THEN "special" ELSE "idle")
                     /\ rt' = (IF Cmp(n, d) > 0 THEN <<d, n>> ELSE <<n, d>>)
                     /\ co' = Nil /\ x' = Nil /\ y' = Nil
                \* a running function became a ratio: it has to be in (0,1)
                ELSE IF h # "-" THEN Fail("logic")
                ELSE /\ ph' = "ratio-run" /\ rt' = <<n, d>> /\ sym' = -1
                     /\ co' = Nil /\ x' = Nil /\ y' = Nil
                     /\ UNCHANGED <<head, ends, goal, core, room>>

\* deliver symbol s; the ghost does what it has to do, not what s says
Emit(s) == /\ sym' = s
           /\ core' = After(core)
           /\ ends' = (IF s = Ended THEN ends + 1 ELSE ends)
           /\ ph' = "idle" /\ room' = (IF room = Endless THEN room ELSE room - 1)
           /\ UNCHANGED <<head, goal>>

RatioRun ==
    /\ ph = "ratio-run"
    /\ LET n == rt[1]
           d == rt[2]
           above == Cmp(Twice(n), d) > 0     \* n > d/2 on integers, see AboveHalf
       IN  IF above
           THEN rt' = <<Sub(d, n), n>> /\ Emit(Uncover)
           ELSE IF IsEven(d)
           THEN IF Cmp(n, Half(d)) = 0
                THEN Emit(Ended) /\ UNCHANGED rt
                ELSE Emit(Amplify) /\ rt' = <<n, Half(d)>>
           ELSE IF ~FitU(Twice(n)) THEN Fail("panic")
           ELSE Emit(Amplify) /\ rt' = <<Twice(n), d>>
    /\ UNCHANGED <<co, x, y>>

-----------------------------------------------------------------------------
(* Homographic functions (co[1]*x + co[2]) / (co[3]*x + co[4])              *)

AtZero == <<co[2], co[4]>>
AtOne == <<Add(co[1], co[2]), Add(co[3], co[4])>>

\* neither numerator nor denominator changes sign inside (0,1)
Amenable(mx, m) == Sgn(m) = 0 \/ Sgn(Add(mx, m)) = Sgn(m) \/ Sgn(Add(mx, m)) = 0
AmenableFits(mx, m) == Sgn(m) = 0 \/ Fit(Add(mx, m))

HomZeroOut == Amenable(co[1], co[2])
HomOut == HomZeroOut /\ Amenable(co[3], co[4])
HomOutFits == AmenableFits(co[1], co[2]) /\ (HomZeroOut => AmenableFits(co[3], co[4]))

BothZero(f) == Sgn(f[1]) = 0 /\ Sgn(f[2]) = 0
HomVoid == BothZero(AtZero) \/ BothZero(AtOne)
\* an infinite extreme has the sign that is approached from inside
Towards(f, m) == Normal(IF Sgn(f[2]) = 0 /\ Sgn(m) < 0 THEN <<Neg(f[1]), f[2]>> ELSE f)
HomRange == Widen(<<Towards(AtZero, co[3]), Towards(AtZero, co[3])>>, Towards(AtOne, co[4]))
NegFits(f) == IF Sgn(f[2]) < 0 THEN Fit(Neg(f[1])) /\ Fit(Neg(f[2])) ELSE TRUE
HomRangeFits == (~BothZero(AtZero)) => (Fits(AtOne) /\ (BothZero(AtOne) \/ (NegFits(AtZero) /\ NegFits(AtOne))))

IsSpecialFrac(f) == Sgn(f[2]) # 0 /\ Cmp(Mag(f[1]), f[2]) \in {0, IF Sgn(f[1]) = 0 THEN -1 ELSE 0}

\* the head that a range of values allows, or "?"
RangeHead(r) ==
    IF r[1] = r[2] /\ IsSpecialFrac(r[1]) THEN "?"
    ELSE IF CmpInt(r[2], -1) <= 0 THEN "G"
    ELSE IF CmpInt(r[1], 1) >= 0 THEN "T"
    ELSE IF CmpInt(r[1], -1) >= 0 /\ CmpInt(r[2], 0) <= 0 THEN "R"
    ELSE IF CmpInt(r[1], 0) >= 0 /\ CmpInt(r[2], 1) <= 0 THEN "-"
    ELSE "?"

\* coefficients after delivering head h
HomTake(h) ==
    CASE h = "-" -> co
      [] h = "T" -> <<co[3], co[4], co[1], co[2]>>
      [] h = "R" -> <<Neg(co[1]), Neg(co[2]), co[3], co[4]>>
      [] h = "G" -> <<Neg(co[3]), Neg(co[4]), co[1], co[2]>>

Put(c) == IF Fits(c) THEN co' = c /\ UNCHANGED <<ph, y, rt, head, ends, goal, core, room>> /\ sym' = -1
          ELSE Fail("panic")

\* read one symbol of x
HomRead ==
    LET s == SymOf(x)
        odd == ~IsEven(co[1]) \/ ~IsEven(co[3])
    IN  CASE s = Amplify ->
               LET c == IF odd THEN <<co[1], Twice(co[2]), co[3], Twice(co[4])>>
                               ELSE <<Half(co[1]), co[2], Half(co[3]), co[4]>>
               IN  Put(c) /\ (Fits(c) => x' = After(x))
          [] s = Uncover ->
               LET c == <<co[2], Add(co[1], co[2]), co[4], Add(co[3], co[4])>>
               IN  Put(c) /\ (Fits(c) => x' = After(x))
          [] s = Ended ->
               LET v == IF odd THEN <<Add(co[1], Twice(co[2])), Add(co[3], Twice(co[4]))>>
                               ELSE <<Add(Half(co[1]), co[2]), Add(Half(co[3]), co[4])>>
                   w == IF odd THEN v \o <<Twice(co[2]), Twice(co[4])>> ELSE v
               IN  IF ~Fits(w) THEN Fail("panic")
                   ELSE /\ rt' = v /\ ph' = "ratio-new" /\ sym' = -1
                        /\ co' = Nil /\ x' = Nil
                        /\ UNCHANGED <<y, head, ends, goal, core, room>>

HomPrime ==
    /\ ph = "hom-prime"
    /\ IF ~HomOutFits THEN Fail("panic")
       ELSE IF ~HomOut THEN HomRead
       ELSE IF ~HomRangeFits THEN Fail("panic")
       ELSE IF HomVoid THEN HomRead
       ELSE LET h == RangeHead(HomRange)
            IN  IF h = "?" THEN HomRead
                ELSE IF head # "?"     \* a running combination became homographic
                THEN IF h # "-" THEN Fail("logic")
                     ELSE /\ ph' = "hom-run" /\ sym' = -1
                          /\ UNCHANGED <<co, x, y, rt, head, ends, goal, core, room>>
                ELSE IF ~Fits(HomTake(h)) THEN Fail("panic")
                ELSE Deliver(h, "idle") /\ co' = HomTake(h) /\ UNCHANGED <<x, y, rt>>

\* co of a function z -> coefficients of 2z and 1/z - 1
HomAmplified ==
    IF IsEven(co[3]) /\ IsEven(co[4]) THEN <<co[1], co[2], Half(co[3]), Half(co[4])>>
    ELSE <<Twice(co[1]), Twice(co[2]), co[3], co[4]>>
HomUncovered == <<Sub(co[3], co[1]), Sub(co[4], co[2]), co[1], co[2]>>

HomRun ==
    /\ ph = "hom-run"
    /\ IF ~HomOutFits THEN Fail("panic")
       ELSE IF ~HomOut THEN HomRead
       ELSE IF ~HomRangeFits THEN Fail("panic")
       ELSE IF HomVoid
       THEN Emit(Ended) /\ UNCHANGED <<co, x, y, rt>>     \* 0/0 looks like one half
       ELSE LET r == HomRange
            IN  IF CmpInt(r[1], 0) < 0 \/ CmpInt(r[2], 1) > 0 THEN Fail("logic")
                ELSE IF ~HalfFits(r[1]) \/ ~HalfFits(r[2]) THEN Fail("panic")
                ELSE IF CmpHalf(r[1]) = 0 /\ CmpHalf(r[2]) = 0
                THEN Emit(Ended) /\ UNCHANGED <<co, x, y, rt>>
                ELSE IF CmpHalf(r[2]) <= 0
                THEN IF Fits(HomAmplified)
                     THEN Emit(Amplify) /\ co' = HomAmplified /\ UNCHANGED <<x, y, rt>>
                     ELSE Fail("panic")
                ELSE IF CmpHalf(r[1]) >= 0
                THEN IF Fits(HomUncovered)
                     THEN Emit(Uncover) /\ co' = HomUncovered /\ UNCHANGED <<x, y, rt>>
                     ELSE Fail("panic")
                ELSE HomRead

-----------------------------------------------------------------------------
(* Combinations (a xy + b x + c y + d) / (e xy + f x + g y + h)             *)

\* four corners of the unit square: (0,0), (0,1), (1,0), (1,1)
Corner(k, i) ==     \* k = 0 numerator, 4 denominator
    CASE i = 1 -> co[k+4]
      [] i = 2 -> Add(co[k+3], co[k+4])
      [] i = 3 -> Add(co[k+2], co[k+4])
      [] i = 4 -> Add(co[k+1], Add(co[k+2], Add(co[k+3], co[k+4])))
\* sums the library computes on the way, in the order of its two uses
CornerFits(k, i) ==
    CASE i = 1 -> TRUE
      [] i = 4 -> Fits(<<Add(co[k+3], co[k+4]), Add(co[k+2], Add(co[k+3], co[k+4])), Corner(k, 4)>>)
      [] OTHER -> Fit(Corner(k, i))
LastFits(k) ==
    Fits(<<Add(co[k+2], co[k+3]), Add(co[k+1], Add(co[k+2], co[k+3])), Corner(k, 4)>>)

\* all corners strictly on one side of zero
ComSide(k) == LET s == Sgn(co[k+4]) IN s # 0 /\ \A i \in 2..4 : Sgn(Corner(k, i)) = s
ComSideFits(k) ==
    LET s == Sgn(co[k+4])
    IN  s = 0 \/ (/\ Fit(Corner(k, 3))
                  /\ Sgn(Corner(k, 3)) = s => (/\ Fit(Corner(k, 2))
                                               /\ Sgn(Corner(k, 2)) = s => LastFits(k)))
ComOut == ComSide(0) /\ ComSide(4)
ComOutFits == ComSideFits(0) /\ (ComSide(0) => ComSideFits(4))

CornerFrac(i) == Normal(<<Corner(0, i), Corner(4, i)>>)
ComRange == Widen(Widen(Widen(<<CornerFrac(1), CornerFrac(1)>>, CornerFrac(2)), CornerFrac(3)), CornerFrac(4))
ComRangeFits == \A i \in 1..4 : /\ CornerFits(0, i) /\ CornerFits(4, i)
                                /\ NegFits(<<Corner(0, i), Corner(4, i)>>)

\* strict version of RangeHead
StrictHead(r) ==
    IF CmpInt(r[2], -1) < 0 THEN "G"
    ELSE IF CmpInt(r[1], -1) > 0 /\ CmpInt(r[2], 0) < 0 THEN "R"
    ELSE IF CmpInt(r[1], 0) > 0 /\ CmpInt(r[2], 1) < 0 THEN "-"
    ELSE IF CmpInt(r[1], 1) > 0 THEN "T"
    ELSE "?"

Num4 == SubSeq(co, 1, 4)
Den4 == SubSeq(co, 5, 8)
Neg4(s) == [i \in 1..4 |-> Neg(s[i])]
Twice4(s) == [i \in 1..4 |-> Twice(s[i])]
Half4(s) == [i \in 1..4 |-> Half(s[i])]
Sub4(s, t) == [i \in 1..4 |-> Sub(s[i], t[i])]

ComTake(h) ==
    CASE h = "-" -> co
      [] h = "T" -> Den4 \o Num4
      [] h = "R" -> Neg4(Num4) \o Den4
      [] h = "G" -> Neg4(Den4) \o Num4

\* reading a symbol of x: coefficients of x sit at 1, 2, 5, 6 (partners 3, 4, 7, 8);
\* reading y: at 1, 3, 5, 7 (partners 2, 4, 6, 8). ComSym(c, s, q) does it for the
\* positions q = <<with, without>> on coefficients c
QX == <<<<1, 2, 5, 6>>, <<3, 4, 7, 8>>>>
QY == <<<<1, 3, 5, 7>>, <<2, 4, 6, 8>>>>
At(c, p) == [i \in 1..4 |-> c[p[i]]]
Pos(p, i) == CHOOSE j \in 1..4 : p[j] = i
In(p, i) == \E j \in 1..4 : p[j] = i
Merge(q, s, t) == [i \in 1..8 |-> IF In(q[1], i) THEN s[Pos(q[1], i)] ELSE t[Pos(q[2], i)]]
Add4(s, t) == [i \in 1..4 |-> Add(s[i], t[i])]

ComSym(c, s, q) ==
    LET u == At(c, q[1])
        v == At(c, q[2])
    IN  CASE s = Amplify -> (IF Evens(u) THEN Merge(q, Half4(u), v) ELSE Merge(q, u, Twice4(v)))
          [] s = Uncover -> Merge(q, v, Add4(u, v))
\* the function that is left when an operand is one half: coefficients of the other
ComEnd(c, q) ==
    LET u == At(c, q[1])
        v == At(c, q[2])
    IN  IF Evens(u) THEN Add4(v, Half4(u)) ELSE Add4(u, Twice4(v))
ComEndFits(c, q) ==
    Fits(ComEnd(c, q)) /\ (Evens(At(c, q[1])) \/ Fits(Twice4(At(c, q[2]))))

\* continue as a homographic function with coefficients c of operand z
BecomeHom(c, z) ==
    IF Sgn(c[3]) = 0 /\ Sgn(c[4]) = 0 THEN Fail("div0")
    ELSE IF Sgn(c[1]) = 0 /\ Sgn(c[3]) = 0
    THEN /\ rt' = <<c[2], c[4]>> /\ ph' = "ratio-new" /\ sym' = -1
         /\ co' = Nil /\ x' = Nil /\ y' = Nil /\ UNCHANGED <<head, ends, goal, core, room>>
    ELSE /\ co' = c /\ x' = z /\ y' = Nil /\ ph' = "hom-prime" /\ sym' = -1
         /\ UNCHANGED <<rt, head, ends, goal, core, room>>

\* read one symbol of x and then one of y
ComRead ==
    LET s == SymOf(x)
        t == SymOf(y)
    IN  IF s = Ended
        THEN IF ComEndFits(co, QX) THEN BecomeHom(ComEnd(co, QX), y) ELSE Fail("panic")
        ELSE LET c == ComSym(co, s, QX)
             IN  IF ~Fits(c) THEN Fail("panic")
                 ELSE IF t = Ended
                 THEN IF ComEndFits(c, QY) THEN BecomeHom(ComEnd(c, QY), After(x)) ELSE Fail("panic")
                 ELSE LET e == ComSym(c, t, QY)
                      IN  IF ~Fits(e) THEN Fail("panic")
                          ELSE /\ co' = e /\ x' = After(x) /\ y' = After(y) /\ sym' = -1
                               /\ UNCHANGED <<ph, rt, head, ends, goal, core, room>>

ComPrime ==
    /\ ph = "com-prime"
    /\ IF ~ComOutFits THEN Fail("panic")
       ELSE IF ~ComOut THEN ComRead
       ELSE IF ~ComRangeFits THEN Fail("panic")
       ELSE LET h == StrictHead(ComRange)
            IN  IF h = "?" THEN ComRead
                ELSE IF ~Fits(ComTake(h)) THEN Fail("panic")
                ELSE Deliver(h, "idle") /\ co' = ComTake(h) /\ UNCHANGED <<x, y, rt>>

ComAmplified == IF Evens(Den4) THEN Num4 \o Half4(Den4) ELSE Twice4(Num4) \o Den4
ComUncovered == Sub4(Den4, Num4) \o Num4

ComRun ==
    /\ ph = "com-run"
    /\ IF ~ComOutFits THEN Fail("panic")
       ELSE IF ~ComOut THEN ComRead
       ELSE IF ~ComRangeFits THEN Fail("panic")
       ELSE LET r == ComRange
            IN  IF CmpInt(r[1], 0) <= 0 \/ CmpInt(r[2], 1) >= 0 THEN Fail("logic")
                ELSE IF ~HalfFits(r[2]) THEN Fail("panic")
                ELSE IF CmpHalf(r[2]) < 0
                THEN IF Fits(ComAmplified)
                     THEN Emit(Amplify) /\ co' = ComAmplified /\ UNCHANGED <<x, y, rt>>
                     ELSE Fail("panic")
                ELSE IF ~HalfFits(r[1]) THEN Fail("panic")
                ELSE IF CmpHalf(r[1]) > 0
                THEN IF Fits(ComUncovered)
                     THEN Emit(Uncover) /\ co' = ComUncovered /\ UNCHANGED <<x, y, rt>>
                     ELSE Fail("panic")
                ELSE ComRead

-----------------------------------------------------------------------------
(* Beginnings                                                               *)

(* A beginning is a record that says how the operation starts to compute.   *)

Start(p, c, u, v, r, g) == [ph |-> p, co |-> c, x |-> u, y |-> v, rt |-> r, goal |-> g]

\* the next state is the beginning b, with n safe extractions
Begin(b, n) ==
    /\ ph' = b.ph /\ co' = b.co /\ x' = b.x /\ y' = b.y /\ rt' = b.rt /\ goal' = b.goal
    /\ head' = "?" /\ sym' = -1 /\ ends' = 0 /\ core' = Nil /\ room' = n

Value(n, d) == IF Sgn(d) = 0 THEN Nil ELSE Rat(n, d)

StartRatio(n, d) == Start("ratio-new", Nil, Nil, Nil, <<n, d>>, Value(n, d))

\* coefficients of the operand's fraction instead of its value, by the head
HomGive(h, c) ==
    CASE h = "-" -> c
      [] h = "T" -> <<c[2], c[1], c[4], c[3]>>
      [] h = "R" -> <<Neg(c[1]), c[2], Neg(c[3]), c[4]>>
      [] h = "G" -> <<c[2], Neg(c[1]), c[4], Neg(c[3])>>
      [] h = "Z" -> <<Zero, c[2], Zero, c[4]>>
      [] h = "P" -> <<Zero, Add(c[2], c[1]), Zero, Add(c[4], c[3])>>
      [] h = "N" -> <<Zero, Sub(c[2], c[1]), Zero, Sub(c[4], c[3])>>

\* a homographic function of a number with head h and fraction z (Nil if special)
StartHomAt(c, h, z, g) ==
    IF Sgn(c[3]) = 0 /\ Sgn(c[4]) = 0 THEN Start("div0", Nil, Nil, Nil, Nil, g)
    ELSE IF Sgn(c[1]) = 0 /\ Sgn(c[3]) = 0 THEN Start("ratio-new", Nil, Nil, Nil, <<c[2], c[4]>>, g)
    ELSE LET k == HomGive(h, c)
         IN  IF ~Fits(k) THEN Start("panic", Nil, Nil, Nil, Nil, g)
             ELSE IF h \in Specials THEN Start("ratio-new", Nil, Nil, Nil, <<k[2], k[4]>>, g)
             ELSE Start("hom-prime", k, z, Nil, Nil, g)

CoreOrNil(v) == IF HeadOf(v) \in Specials THEN Nil ELSE CoreOf(v)

StartHom(c, v) == StartHomAt(c, HeadOf(v), CoreOrNil(v), Value(Lin(c[1], c[2], v), Lin(c[3], c[4], v)))

\* the same for the operand with positions q of a combination
ComGive(h, c, q) ==
    LET u == At(c, q[1])
        v == At(c, q[2])
    IN  CASE h = "-" -> c
          [] h = "T" -> Merge(q, v, u)
          [] h = "R" -> Merge(q, Neg4(u), v)
          [] h = "G" -> Merge(q, Neg4(v), u)
          [] h = "Z" -> v
          [] h = "P" -> Add4(v, u)
          [] h = "N" -> Sub4(v, u)

StartCom(c, v, w) ==
    LET g == Value(Bilin(c[1], c[2], c[3], c[4], v, w), Bilin(c[5], c[6], c[7], c[8], v, w))
        hv == HeadOf(v)
        hw == HeadOf(w)
    IN  IF hv \in Specials
        THEN LET k == ComGive(hv, c, QX)
             IN  IF ~Fits(k) THEN Start("panic", Nil, Nil, Nil, Nil, g)
                 ELSE StartHomAt(k, hw, CoreOrNil(w), g)
        ELSE IF hw \in Specials
        THEN LET k == ComGive(hw, c, QY)
             IN  IF ~Fits(k) THEN Start("panic", Nil, Nil, Nil, Nil, g)
                 ELSE StartHomAt(k, hv, CoreOrNil(v), g)
        ELSE LET k == ComGive(hv, c, QX)
                 m == ComGive(hw, k, QY)
             IN  IF ~Fits(k) \/ ~Fits(m) THEN Start("panic", Nil, Nil, Nil, Nil, g)
                 ELSE Start("com-prime", m, CoreOf(v), CoreOf(w), Nil, g)

\* the user asks for a symbol
Demand ==
    /\ ph = "idle"
    /\ ph' = (IF ends > AfterEnd THEN "over"
              ELSE IF rt # Nil THEN "ratio-run" ELSE IF y # Nil THEN "com-run" ELSE "hom-run")
    /\ sym' = -1
    /\ UNCHANGED <<co, x, y, rt, head, ends, goal, core, room>>

MNext == RatioNew \/ RatioRun \/ HomPrime \/ HomRun \/ ComPrime \/ ComRun \/ Demand

MDone == ph \in Final /\ UNCHANGED mvars

-----------------------------------------------------------------------------
(* What has to hold                                                         *)

\* the value that the machine's state stands for
MValue ==
    CASE ph = "ratio-new" -> Value(rt[1], rt[2])
      [] rt # Nil /\ ph \in {"ratio-run", "idle"} -> Value(rt[1], rt[2])
      [] y # Nil -> Value(Bilin(co[1], co[2], co[3], co[4], x, y), Bilin(co[5], co[6], co[7], co[8], x, y))
      [] OTHER -> Value(Lin(co[1], co[2], x), Lin(co[3], co[4], x))

\* the abstraction invariant: nothing is lost or invented while symbols are exchanged
Sound == ph \notin Final \cup {"pick"} => MValue = (IF head = "?" THEN goal ELSE core)

\* every step that shows something shows what the abstract Number shows
AbsStep ==
    /\ head' # head => /\ head = "?" /\ goal # Nil /\ head' = HeadOf(goal)
    /\ (sym' # -1 /\ ph' # "panic") => /\ sym' = SymOf(core) /\ core' = After(core)
AbsBehaviour == [][AbsStep]_mvars

\* zero denominators are reported and nothing else is reported as one
DivZero == /\ ph = "div0" => goal = Nil /\ head = "?"
           /\ goal = Nil => head = "?"

NoLogicError == ph # "logic"
NoPanic == ph # "panic"
\* an overflow happens only when the budget is used up
LatePanic == ph = "panic" => (IF head = "?" THEN room < 0 ELSE room <= 0)
EndIsFinal == ends > 0 => ph \in {"idle", "ratio-run", "hom-run", "com-run", "over"} /\ IsHalf(core)
WordsFit == Fits(co) /\ (rt # Nil => FitU(Mag(rt[1])) /\ FitU(Mag(rt[2])))

\* the life of a Number comes to its end
Finishes == <>(ph \in Final)
=============================================================================
