---------------------------- MODULE MemoryTrace ----------------------------
(* Validation of what the real library held on the heap: records as in      *)
(* ClarithTrace, every event with the bytes held after it and the most      *)
(* meanwhile, and a last event for the moment when everything was dropped.  *)
EXTENDS ClarithTrace, Footprint

mvars == <<reg, tid, l, size>>

Weighed(e) ==
    CASE e.op \in {"ratio", "ratio_u"} -> WeighRatio(e.dst, e.res)
      [] e.op = "homographic"          -> WeighHomographic(e.dst, e.x, e.res)
      [] e.op = "combine"              -> WeighCombine(e.dst, e.x, e.y, e.res)
      [] e.op = "consume"              -> WeighConsume(e.dst, e.x, e.res)
      [] e.op \in {"wrap", "move"}     -> WeighMove(e.dst, e.x, e.res)
      [] OTHER                         -> WeighOther(0)

MemoryStep == Step /\ Weighed(E) /\ Held(E.mem) /\ Meanwhile(E.peak)

\* everything was dropped
MemoryEnd ==
    /\ l <= Len(Ev) /\ E.op = "end"
    /\ E.mem = 0 /\ Meanwhile(E.peak)
    /\ l' = l + 1 /\ UNCHANGED <<reg, size, tid>>

\* a step that does not conform is for other properties to report, but the end must be right
MemoryAbandon ==
    /\ Blame /\ l <= Len(Ev) /\ E.op # "end"
    /\ ~ENABLED Conforms(E)
    /\ PrintT(<<"abandoned", Cases[tid].id, l>>)
    /\ l' = Len(Ev) + (IF Ev[Len(Ev)].op = "end" /\ Ev[Len(Ev)].mem # 0 THEN 0 ELSE 1)
    /\ UNCHANGED <<reg, size, tid>>

MemoryRefuse ==
    /\ Canary /\ l <= Len(Ev)
    /\ ~ENABLED MemoryStep /\ ~ENABLED MemoryEnd
    /\ PrintT(<<"refused", tid, l>>)
    /\ l' = Len(Ev) + 1 /\ UNCHANGED <<reg, size, tid>>

MemoryAccepted == l > Len(Ev) /\ UNCHANGED mvars

MemoryNext == MemoryStep \/ MemoryEnd \/ MemoryAbandon \/ MemoryRefuse \/ MemoryAccepted

MemorySpec == TraceInit /\ SizeInit /\ [][MemoryNext]_mvars
=============================================================================
