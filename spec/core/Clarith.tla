------------------------------ MODULE Clarith ------------------------------
(* The library as its user sees it: a store of Numbers in registers and the *)
(* public operations on them. The state holds the exact rational value of   *)
(* every Number; an operation's action has the observable result of the     *)
(* operation as a parameter and is enabled exactly for the results that the *)
(* library may give.                                                        *)
(*                                                                          *)
(* The only freedom the library has is to panic when its machine-word       *)
(* coefficients overflow. That freedom is bounded: inside an envelope of    *)
(* small inputs it must not (HomSmall, ComSmall), and in general not before *)
(* the computation has gone on for some time (Room). Every Number carries   *)
(* how many more extractions are safe.                                      *)
EXTENDS Budget, FiniteSets

CONSTANTS
    Regs,         \* names of registers
    HomLimit,     \* homographic functions with all terms up to here never overflow
    ComLimit,     \* and combinations up to here
    StopLimit     \* consuming stops only when a coefficient reaches this magnitude

VARIABLE reg      \* register -> Number or Empty

vars == <<reg>>

-----------------------------------------------------------------------------
Empty == [k |-> "empty"]
Special(h) == [k |-> "special", h |-> h]
Other(pr, c, s) == [k |-> "other", h |-> pr, c |-> c, safe |-> s]

Live(r) == reg[r].k # "empty"
IsOther(r) == reg[r].k = "other"

Always == Unbounded
Most(n) == IF n < 0 THEN 0 ELSE n
\* reading a Number to its end is safe
Sturdy(r) == IsOther(r) => reg[r].safe = Always \/ Length(reg[r].c, reg[r].safe) < reg[r].safe
\* reading x until it differs from y is safe
Ready(x, y) == reg[x].safe = Always \/ Deciding(reg[x].c, reg[y].c, reg[x].safe + 1) <= reg[x].safe

\* the exact value of a Number
Val(x) == IF x.k = "special" THEN SpecialValue(x.h) ELSE Primed(x.h, x.c)

\* the Number that the library must build for a value
Mk(v, s) == LET h == HeadOf(v)
            IN  IF h \in Specials THEN Special(h) ELSE Other(h, CoreOf(v), Most(s))

Without(S) == [r \in Regs |-> IF r \in S THEN Empty ELSE reg[r]]
Store(S, dst, x) == [Without(S) EXCEPT ![dst] = x]

Small(limit, ints) == \A i \in 1..Len(ints) : Cmp(Mag(ints[i]), limit) <= 0

HomSmall(c, v) == Small(HomLimit, c) /\ Small(HomLimit, v)
ComSmall(c, v, w) == Small(ComLimit, c) /\ Small(ComLimit, v) /\ Small(ComLimit, w)

\* the number of safe extractions from the result; below zero it need not even be built
HomSafe(c, x) == IF ~Sturdy(x) /\ ~Zeros(<<c[1], c[3]>>) THEN -1
                 ELSE IF HomSmall(c, Val(reg[x])) THEN Always
                 ELSE HomRoom(c, Val(reg[x]))
ComSafe(c, x, y) == IF ~(Sturdy(x) /\ Sturdy(y)) THEN -1
                    ELSE IF ComSmall(c, Val(reg[x]), Val(reg[y])) THEN Always
                    ELSE ComRoom(c, Val(reg[x]), Val(reg[y]))

-----------------------------------------------------------------------------
Init == reg = [r \in Regs |-> Empty]

(* Number::ratio(n, d) *)
Ratio(dst, n, d, res) ==
    IF Sgn(d) = 0
    THEN res = "div0" /\ UNCHANGED reg
    ELSE LET z == Rat(n, d)
         IN  res = HeadOf(z) /\ reg' = Store({}, dst, Mk(z, Always))

(* Number::ratio_u(positive, n, d) *)
RatioU(dst, pos, n, d, res) == Ratio(dst, IF pos THEN n ELSE Neg(n), d, res)

(* Number::Special(..) *)
MakeSpecial(dst, h) == h \in Specials /\ reg' = Store({}, dst, Special(h))

(* Number::homographic(x, nx, n, dx, d), c = <<nx, n, dx, d>> *)
Homographic(dst, x, c, res) ==
    /\ Live(x)
    /\ LET v == Val(reg[x])
           nu == Lin(c[1], c[2], v)
           de == Lin(c[3], c[4], v)
       IN  \/ /\ res = "panic" /\ HomSafe(c, x) < 0
              /\ reg' = Without({x})
           \/ /\ res = "div0" /\ Sgn(de) = 0
              /\ reg' = Without({x})
           \/ /\ Sgn(de) # 0
              /\ LET z == Rat(nu, de)
                 IN  res = HeadOf(z) /\ reg' = Store({x}, dst, Mk(z, HomSafe(c, x)))

(* Number::combine(x, y, ..), c = <<nxy, nx, ny, n, dxy, dx, dy, d>> *)
Combine(dst, x, y, c, res) ==
    /\ x # y /\ Live(x) /\ Live(y)
    /\ LET v == Val(reg[x])
           w == Val(reg[y])
           nu == Bilin(c[1], c[2], c[3], c[4], v, w)
           de == Bilin(c[5], c[6], c[7], c[8], v, w)
       IN  \/ /\ res = "panic" /\ ComSafe(c, x, y) < 0
              /\ reg' = Without({x, y})
           \/ /\ res = "div0" /\ Sgn(de) = 0
              /\ reg' = Without({x, y})
           \/ /\ Sgn(de) # 0
              /\ LET z == Rat(nu, de)
                 IN  res = HeadOf(z) /\ reg' = Store({x, y}, dst, Mk(z, ComSafe(c, x, y)))

(* Number::compare(x, y): the first difference decides, so no more than up  *)
(* to there need be safe to extract; in different intervals, nothing        *)
OrderName(m) == CASE m < 0 -> "lt" [] m = 0 -> "eq" [] m > 0 -> "gt"
Compare(x, y, res) ==
    /\ x # y /\ Live(x) /\ Live(y)
    /\ \/ res = OrderName(RatCmp(Val(reg[x]), Val(reg[y])))
       \/ res = "panic" /\ IsOther(x) /\ IsOther(y) /\ reg[x].h = reg[y].h /\ ~(Ready(x, y) /\ Ready(y, x))
    /\ reg' = Without({x, y})

\* the y with (c[1]*y + c[2]) / (c[3]*y + c[4]) = v is SolveNum / SolveDen
SolveNum(c, v) == Sub(Mul(c[4], v[1]), Mul(c[2], v[2]))
SolveDen(c, v) == Sub(Mul(c[1], v[2]), Mul(c[3], v[1]))

(* Number::consume(x): coefficients c, and res "none" or "-" for a remainder *)
ConsumeEnd(x, c, res) ==     \* no remainder: the rest is one half
    /\ Live(x) /\ res = "none"
    /\ LET v == Val(reg[x])
           nu == Lin(c[1], c[2], OneHalf)
           de == Lin(c[3], c[4], OneHalf)
       IN  Sgn(de) # 0 /\ Cmp(Mul(nu, v[2]), Mul(v[1], de)) = 0
    /\ reg' = Without({x})
ConsumeSome(dst, x, c, res) ==
    /\ Live(x) /\ res = "-"
    /\ \E i \in 1..4 : Cmp(Mag(c[i]), StopLimit) >= 0
    /\ LET v == Val(reg[x])
           nu == SolveNum(c, v)
           de == SolveDen(c, v)
       IN  /\ Sgn(de) # 0 /\ Sgn(nu) = Sgn(de) /\ Cmp(Mag(nu), Mag(de)) < 0
           /\ reg' = Store({x}, dst, Mk(Rat(nu, de), IF Sturdy(x) THEN Always ELSE 0))
ConsumeFail(x, res) ==
    /\ Live(x) /\ res = "panic" /\ ~Sturdy(x)
    /\ reg' = Without({x})
Consume(dst, x, c, res) ==
    \/ ConsumeFail(x, res)
    \/ res # "panic" /\ (ConsumeEnd(x, c, res) \/ ConsumeSome(dst, x, c, res))

(* Clog::egest() several times: syms were delivered; res is "ok", or how    *)
(* the extraction after the last of them ended. A Number that has reported  *)
(* its end has nothing left to compute, so it is safe from then on.         *)
HasEnd(syms) == \E i \in 1..Len(syms) : syms[i] = Ended
Egest(x, syms, res) ==
    /\ IsOther(x)
    /\ LET w == Walk(reg[x].c, syms, 1)
       IN  /\ w[1] = Len(syms)
           /\ \/ /\ res = "ok"
                 /\ reg' = Store({}, x, [reg[x] EXCEPT !.c = w[2],
                                                      !.safe = IF @ = Always \/ HasEnd(syms) THEN Always
                                                               ELSE Most(@ - Len(syms))])
              \/ /\ res = "panic" /\ reg[x].safe <= Len(syms) /\ ~HasEnd(syms)
                 /\ reg' = Without({x})

(* Number::Other(primer, clog of x) *)
Wrap(dst, x, pr) ==
    /\ IsOther(x) /\ pr \in Primers
    /\ reg' = Store({x}, dst, [reg[x] EXCEPT !.h = pr])

(* unwrap_special, unwrap_other: res is the head, or "panic" on the other kind *)
UnwrapSpecial(x, res) ==
    /\ Live(x)
    /\ res = (IF reg[x].k = "special" THEN reg[x].h ELSE "panic")
    /\ reg' = Without({x})
UnwrapOther(dst, x, res) ==
    /\ Live(x)
    /\ IF IsOther(x)
       THEN res = reg[x].h /\ reg' = Store({x}, dst, reg[x])
       ELSE res = "panic" /\ reg' = Without({x})

Move(dst, x) == Live(x) /\ reg' = Store({x}, dst, reg[x])
Drop(x) == Live(x) /\ reg' = Without({x})

-----------------------------------------------------------------------------
(* What every reachable store satisfies                                     *)

FractionOK(c) == Sgn(c[1]) > 0 /\ Cmp(c[1], c[2]) < 0 /\ Coprime(c[1], c[2]) = c

NumberOK(x) ==
    CASE x.k = "empty"   -> TRUE
      [] x.k = "special" -> x.h \in Specials
      [] x.k = "other"   -> x.h \in Primers /\ FractionOK(x.c) /\ x.safe \in 0..Always

TypeOK == \A r \in Regs : NumberOK(reg[r])

\* the head and the fraction are functions of the value, and the value of them
HeadByValue ==
    \A r \in Regs : Live(r) =>
        /\ reg[r].h = HeadOf(Val(reg[r]))
        /\ IsOther(r) => reg[r].c = CoreOf(Val(reg[r]))
=============================================================================
