----------------------------- MODULE ClarithGen -----------------------------
(* Random histories of the store, for TLC in simulation mode. Every step is *)
(* an action of Clarith with arguments drawn at random; the arguments are   *)
(* recorded, and a history of Steps operations is printed as one line of    *)
(* JSON. The state lets the generator aim: at poles, at results on the      *)
(* boundaries between intervals, at Numbers that are partially extracted.   *)
EXTENDS Clarith, TLC, Json

CONSTANTS Steps,    \* operations per history
          Big       \* chance (in percent) of large integers

VARIABLES log

gvars == <<reg, log>>

\* operators with an argument, so that TLC does not evaluate them once and for all
R(S) == RandomElement(S)
Chance(p) == R(1..100) <= p

Tiny == -9..9
RandTiny(z) == Lit(R(Tiny))
RandMid(z) == Lit(R(-300..300))
RandLimb(z) == IF Chance(20) THEN R({0, 1, 9999}) ELSE R(0..9999)
\* tuples are written out, so that TLC draws every element once
RandLarge(z) == LET s == R({-1, 1}) top == R(1..9999) k == R(1..4) IN
    CASE k = 1 -> <<s, top>>
      [] k = 2 -> <<s, RandLimb(z), top>>
      [] k = 3 -> <<s, RandLimb(z), RandLimb(z), top>>
      [] k = 4 -> <<s, RandLimb(z), RandLimb(z), RandLimb(z), top>>
RandInt(z) == IF Chance(Big) THEN RandLarge(log) ELSE IF Chance(30) THEN RandMid(log) ELSE RandTiny(log)
NonZero(v) == IF Sgn(v) = 0 THEN One ELSE v

LiveRegs == {r \in Regs : Live(r)}
OtherRegs == {r \in Regs : IsOther(r)}
Moderate(r) == Live(r) => Len(Val(reg[r])[1]) <= 5 /\ Len(Val(reg[r])[2]) <= 5     \* keep values below 10^16

\* mostly an empty register, so that many Numbers stay alive
Target(z) == IF Regs # LiveRegs /\ Chance(80) THEN R(Regs \ LiveRegs) ELSE R(Regs)

\* coefficients that put operand value v at a pole, or the result at a special
Aimed(c, v) ==
    LET k == R(1..10)
    IN  CASE k = 1 -> <<c[1], c[2], v[2], Neg(v[1])>>       \* pole
          [] k = 2 -> <<v[2], Neg(v[1]), c[3], c[4]>>       \* zero
          [] k = 3 -> <<c[1], c[2], c[1], c[2]>>            \* one
          [] k = 4 -> <<c[1], c[2], Neg(c[1]), Neg(c[2])>>  \* minus one
          [] k = 5 -> <<c[1], c[2], Zero, Zero>>
          [] k = 6 -> <<Zero, c[2], Zero, NonZero(c[4])>>
          [] OTHER -> c

RECURSIVE Symbols(_, _)
Symbols(c, k) == IF k = 0 THEN << >> ELSE <<SymOf(c)>> \o Symbols(After(c), k - 1)

Record(e) == log' = Append(log, e)

Exact == Specials \cup Primers \cup {"div0"}

GRatio == \E d \in {Target(log)} : LET n == RandInt(log) q == RandInt(log) IN
    \E res \in Exact : Ratio(d, n, q, res) /\ Record([op |-> "R", dst |-> d, c |-> <<n, q>>])
GRatioU == \E d \in {Target(log)} : LET n == Mag(RandInt(log)) q == NonZero(Mag(RandInt(log))) pos == R(BOOLEAN) IN
    \E res \in Exact : RatioU(d, pos, n, q, res)
                       /\ Record([op |-> "V", dst |-> d, pos |-> pos, c |-> <<n, q>>])
GSpecial == \E d \in {Target(log)} : LET h == R(Specials) IN
    MakeSpecial(d, h) /\ Record([op |-> "S", dst |-> d, v |-> h])
GHom == LiveRegs # {} /\ \E d \in {Target(log)}, s \in {R(LiveRegs)} :
    LET c == Aimed(<<RandInt(log), RandInt(log), RandInt(log), RandInt(log)>>, Val(reg[s])) IN
    \E res \in Exact : Homographic(d, s, c, res) /\ Record([op |-> "H", dst |-> d, x |-> s, c |-> c])
GCom == Cardinality(LiveRegs) > 1 /\ \E d \in {Target(log)}, s \in {R(LiveRegs)} : \E t \in {R(LiveRegs \ {s})} :
    LET k == R(1..6)
        c == CASE k = 1 -> <<Zero, One, One, Zero, Zero, Zero, Zero, One>>
               [] k = 2 -> <<Zero, One, Neg(One), Zero, Zero, Zero, Zero, One>>
               [] k = 3 -> <<One, Zero, Zero, Zero, Zero, Zero, Zero, One>>
               [] k = 4 -> <<Zero, One, Zero, Zero, Zero, Zero, One, Zero>>
               [] OTHER -> <<RandTiny(log), RandTiny(log), RandTiny(log), RandTiny(log),
                              RandTiny(log), RandTiny(log), RandTiny(log), RandTiny(log)>> IN
    \E res \in Exact : Combine(d, s, t, c, res)
                       /\ Record([op |-> "B", dst |-> d, x |-> s, y |-> t, c |-> c])
GCompare == Cardinality(LiveRegs) > 1 /\ \E s \in {R(LiveRegs)} : \E t \in {R(LiveRegs \ {s})} :
    \E res \in {"lt", "eq", "gt"} : Compare(s, t, res) /\ Record([op |-> "C", x |-> s, y |-> t])
GEgest == OtherRegs # {} /\ \E s \in {R(OtherRegs)} :
    LET k == R(1..6) IN
    Egest(s, Symbols(reg[s].c, k), "ok") /\ Record([op |-> "E", x |-> s, k |-> k])
GDrain == OtherRegs # {} /\ \E s \in {R(OtherRegs)} :
    LET k == R(0..2) IN
    /\ reg' = [reg EXCEPT ![s].c = OneHalf, ![s].safe = Always]    \* Egest of the whole sequence
    /\ Record([op |-> "D", x |-> s, k |-> k])
GWrap == OtherRegs # {} /\ \E d \in {Target(log)}, s \in {R(OtherRegs)} :
    LET p == R(Primers) IN Wrap(d, s, p) /\ Record([op |-> "W", dst |-> d, x |-> s, p |-> p])
GUnwrap == LiveRegs # {} /\ \E s \in {R(LiveRegs)} :
    IF IsOther(s) = Chance(90)
    THEN UnwrapOther(s, s, IF IsOther(s) THEN reg[s].h ELSE "panic") /\ Record([op |-> "Q", as |-> "o", x |-> s])
    ELSE UnwrapSpecial(s, IF IsOther(s) THEN "panic" ELSE reg[s].h) /\ Record([op |-> "Q", as |-> "s", x |-> s])
\* what consuming returns is up to the library; small values are consumed to the end
GConsume == LiveRegs # {} /\ \E d \in {Target(log)}, s \in {R(LiveRegs)} :
    LET v == Val(reg[s]) IN
    /\ Len(v[2]) <= 2 /\ Len(v[1]) <= 2
    /\ ConsumeEnd(s, <<Zero, v[1], Zero, v[2]>>, "none")
    /\ Record([op |-> "K", dst |-> d, x |-> s])
GMove == LiveRegs # {} /\ \E d \in {Target(log)}, s \in {R(LiveRegs)} :
    Move(d, s) /\ Record([op |-> "M", dst |-> d, x |-> s])
GDrop == Cardinality(LiveRegs) > 2 /\ \E s \in {R(LiveRegs)} : Drop(s) /\ Record([op |-> "X", x |-> s])

GInit == Init /\ log = << >>

Run == /\ Len(log) < Steps
       /\ \/ GRatio \/ GRatio \/ GRatio \/ GRatioU \/ GSpecial \/ GHom \/ GHom \/ GCom \/ GCom \/ GCompare \/ GEgest \/ GEgest
          \/ GDrain \/ GWrap \/ GUnwrap \/ GConsume \/ GMove \/ GDrop
Flush == /\ Len(log) = Steps
         /\ PrintT("HISTORY " \o ToJson(log))
         /\ log' = Append(log, [op |-> "end"]) /\ UNCHANGED reg

GNext == Run \/ Flush
GSpec == GInit /\ [][GNext]_gvars

Keep == \A r \in Regs : Moderate(r)
=============================================================================
