----------------------------- MODULE Footprint -----------------------------
(* What the Numbers of a store may hold on the heap: an amount for every    *)
(* operation that went into them. Extracting symbols adds nothing, however  *)
(* many there are; what became of an operation is irrelevant once nothing   *)
(* refers to it any more.                                                   *)
EXTENDS Clarith

CONSTANT PerOp    \* bytes for one operation

VARIABLE size     \* register -> operations inside

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET r == CHOOSE q \in S : TRUE IN f[r] + SumOver(f, S \ {r})

Total == SumOver(size, Regs)

SizeInit == size = [r \in Regs |-> 0]

\* a step that puts n operations into dst if it is made, and leaves the other registers' alone
Weigh(made, dst, n) ==
    size' = [r \in Regs |-> IF reg'[r].k # "other" THEN 0 ELSE IF made /\ r = dst THEN n ELSE size[r]]

Heads == Specials \cup Primers

WeighRatio(dst, res) == Weigh(res \in Heads, dst, 1)
WeighHomographic(dst, x, res) == Weigh(res \in Heads, dst, size[x] + 1)
WeighCombine(dst, x, y, res) == Weigh(res \in Heads, dst, size[x] + size[y] + 1)
\* the rest after consuming is what was being read
WeighConsume(dst, x, res) == Weigh(res \in Heads, dst, size[x])
WeighMove(dst, x, res) == Weigh(res \in Heads, dst, size[x])
WeighOther(x) == Weigh(FALSE, x, 0)

\* bytes held after a step, and the most during it
Held(mem) == 0 <= mem /\ mem <= PerOp * SumOver(size', Regs)
Meanwhile(peak) == peak <= PerOp * (Total + 1)
=============================================================================
