---------------------------- MODULE MCFootprint ----------------------------
(* The sizes of Numbers, exhaustively within small bounds.                  *)
EXTENDS Footprint, TLC

CONSTANTS N,     \* numerators and denominators of ratios are 0 .. N
          B,     \* states with a denominator beyond B are not expanded
          OPS    \* nor those after more than this many operations

VARIABLE ops     \* history: building operations so far

allvars == <<reg, size, ops>>

HomCoefs == { <<1,1,0,1>>, <<0,1,1,0>>, <<1,0,1,-1>>, <<0,1,0,2>>, <<0,1,0,0>> }
ComCoefs == { <<0,1,1,0, 0,0,0,1>>, <<1,0,0,0, 0,0,0,1>>, <<0,1,0,0, 0,0,1,0>> }
ConsumeCoefs == { <<1,0,0,1>>, <<0,1,1,0>>, <<0,1,0,1>> }
SymStrings == { <<s>> : s \in {Amplify, Uncover, Ended} }
Built == Heads \cup {"div0", "panic"}

MCInit == Init /\ SizeInit /\ ops = 0

More == ops' = ops + 1
Same == UNCHANGED ops

MCNext ==
    \/ \E t \in Regs, n, d \in 0..N, res \in Built : Ratio(t, n, d, res) /\ WeighRatio(t, res) /\ More
    \/ \E t \in Regs, h \in Specials : MakeSpecial(t, h) /\ WeighOther(t) /\ Same
    \/ \E r \in {q \in Regs : Live(q)} :
        \/ \E t \in Regs :
            \/ \E c \in HomCoefs, res \in Built : Homographic(t, r, c, res) /\ WeighHomographic(t, r, res) /\ More
            \/ \E c \in ConsumeCoefs, res \in {"none", "-", "panic"} : Consume(t, r, c, res) /\ WeighConsume(t, r, res) /\ Same
            \/ Wrap(t, r, "T") /\ WeighMove(t, r, "T") /\ Same
            \/ \E res \in Built : UnwrapOther(t, r, res) /\ WeighMove(t, r, res) /\ Same
            \/ Move(t, r) /\ WeighMove(t, r, reg[r].h) /\ Same
            \/ \E s \in {q \in Regs : Live(q)}, c \in ComCoefs, res \in Built :
                    Combine(t, r, s, c, res) /\ WeighCombine(t, r, s, res) /\ More
        \/ \E s \in {q \in Regs : Live(q)}, res \in {"lt", "eq", "gt", "panic"} : Compare(r, s, res) /\ WeighOther(r) /\ Same
        \/ \E y \in SymStrings, res \in {"ok", "panic"} : Egest(r, y, res) /\ WeighOther(r) /\ Same
        \/ \E res \in Built : UnwrapSpecial(r, res) /\ WeighOther(r) /\ Same
        \/ Drop(r) /\ WeighOther(r) /\ Same

MCSpec == MCInit /\ [][MCNext]_allvars

Bounded == ops <= OPS /\ \A r \in Regs : IsOther(r) => reg[r].c[2] <= B

\* only Numbers that are not special hold anything
HoldsSome == \A r \in Regs : size[r] > 0 <=> IsOther(r)

\* the bound is linear in the operations, whatever was extracted
Linear == Total <= ops

\* only building adds, one operation at a time
Slow == [][Total' <= Total + (ops' - ops)]_allvars

\* an operation that is no step of building leaves the total alone unless Numbers go
Lossless == [][(ops' = ops /\ Cardinality({r \in Regs : reg'[r].k = "other"}) = Cardinality({r \in Regs : IsOther(r)})
                /\ \A r \in Regs : IsOther(r) /\ reg'[r].k = "other") => Total' = Total]_allvars
=============================================================================
