----------------------------- MODULE MCClarith -----------------------------
(* The store of Numbers, exhaustively within small bounds.                  *)
EXTENDS Clarith, TLC

CONSTANTS N,     \* numerators and denominators of ratios are -N .. N
          K,     \* coefficients of homographic functions are -K .. K; 0: a chosen few
          B      \* states with a numerator or denominator beyond B are not expanded

VARIABLE touched      \* history: the registers that the last operation names

allvars == <<reg, touched>>

HomCoefs == IF K > 0 THEN [1..4 -> (-K)..K]
            ELSE { <<1,1,0,1>>, <<2,0,0,1>>, <<0,1,1,0>>, <<-1,0,1,2>>, <<1,0,1,-1>>, <<0,1,0,0>>, <<2,-1,0,1>> }
\* +, -, *, /, and four with poles or a vanishing denominator
ComCoefs == { <<0,1,1,0, 0,0,0,1>>, <<0,1,-1,0, 0,0,0,1>>, <<1,0,0,0, 0,0,0,1>>, <<0,1,0,0, 0,0,1,0>>,
              <<1,0,0,1, 0,1,-1,0>>, <<0,0,0,1, 0,0,0,0>>, <<0,1,1,0, 1,0,0,1>>, <<0,0,0,1, 2,-1,0,0>> }
ConsumeCoefs == { <<1,0,0,1>>, <<0,1,1,0>>, <<1,1,0,1>>, <<0,1,0,1>>, <<0,1,1,2>>, <<0,0,0,1>>, <<1,1,1,1>> }
Results == Specials \cup Primers \cup {"div0", "panic", "none", "lt", "eq", "gt", "ok"}
SymStrings == { <<s>> : s \in {Amplify, Uncover, Ended} } \cup { <<s, t>> : s, t \in {Amplify, Uncover, Ended} }

MCInit == Init /\ touched = {}

Op(S, A) == A /\ touched' = S

Built == Specials \cup Primers \cup {"div0", "panic"}

MCNext ==
    \/ \E t \in Regs :
        \/ \E n, d \in (-N)..N, res \in Built : Op({t}, Ratio(t, n, d, res))
        \/ \E h \in Specials : Op({t}, MakeSpecial(t, h))
    \/ \E r \in {q \in Regs : Live(q)} :
        \/ \E t \in Regs :
            \/ \E c \in HomCoefs, res \in Built : Op({r, t}, Homographic(t, r, c, res))
            \/ \E c \in ConsumeCoefs, res \in {"none", "-", "panic"} : Op({r, t}, Consume(t, r, c, res))
            \/ \E p \in Primers : Op({r, t}, Wrap(t, r, p))
            \/ \E res \in Built : Op({r, t}, UnwrapOther(t, r, res))
            \/ Op({r, t}, Move(t, r))
            \/ \E s \in {q \in Regs : Live(q)}, c \in ComCoefs, res \in Built :
                    Op({r, s, t}, Combine(t, r, s, c, res))
        \/ \E s \in {q \in Regs : Live(q)}, res \in {"lt", "eq", "gt", "panic"} : Op({r, s}, Compare(r, s, res))
        \/ \E y \in SymStrings, res \in {"ok", "panic"} : Op({r}, Egest(r, y, res))
        \/ \E res \in Built : Op({r}, UnwrapSpecial(r, res))
        \/ Op({r}, Drop(r))

MCSpec == MCInit /\ [][MCNext]_allvars

Bounded == \A r \in Regs : IsOther(r) => reg[r].c[2] <= B

\* an operation changes only the registers it names
Isolation == [][\A r \in Regs : reg'[r] # reg[r] => r \in touched']_allvars

\* apart from an overflow, the result of an operation is determined by the values
OneAnswer ==
    \A r \in Regs, c \in ComCoefs :
        LET k == SubSeq(c, 3, 6)
        IN  Live(r) => Cardinality({res \in Results \ {"panic"} : ENABLED Homographic(r, r, k, res)}) = 1

\* the end of a sequence is final
EndFinal == \A r \in Regs : (IsOther(r) /\ IsHalf(reg[r].c)) =>
                \A y \in SymStrings : ENABLED Egest(r, y, "ok") <=> \A i \in 1..Len(y) : y[i] = Ended

\* equal values are indistinguishable
Extensional ==
    \A r, s \in Regs : (Live(r) /\ Live(s) /\ RatCmp(Val(reg[r]), Val(reg[s])) = 0) =>
        /\ reg[r].k = reg[s].k /\ reg[r].h = reg[s].h
        /\ IsOther(r) => reg[r].c = reg[s].c

\* the arithmetic used in the specification is the arithmetic of rationals
Small3 == {Rat(p, q) : p \in -3..3, q \in 1..3}
ASSUME \A u, w \in Small3 :
    /\ Rat(Bilin(0, 1, 1, 0, u, w), Bilin(0, 0, 0, 1, u, w)) = Rat(u[1]*w[2] + w[1]*u[2], u[2]*w[2])
    /\ Rat(Bilin(1, 0, 0, 0, u, w), Bilin(0, 0, 0, 1, u, w)) = Rat(u[1]*w[1], u[2]*w[2])
    /\ w[1] # 0 => Rat(Bilin(0, 1, 0, 0, u, w), Bilin(0, 0, 1, 0, u, w)) = Rat(u[1]*w[2], u[2]*w[1])
    /\ Rat(Lin(2, 3, u), Lin(0, 1, u)) = Rat(2*u[1] + 3*u[2], u[2])
    /\ RatCmp(u, w) = Sgn(u[1]*w[2] - w[1]*u[2])
    /\ RatCmp(u, w) = -RatCmp(w, u)
=============================================================================
