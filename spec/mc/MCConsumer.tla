----------------------------- MODULE MCConsumer -----------------------------
EXTENDS Consumer, TLC
CONSTANT T
Vals == {Rat(p, q) : p \in -T..T, q \in 1..T}
Init == \E a \in Vals : KStart(a)
Spec == Init /\ [][KNext \/ KDone]_kvars /\ WF_kvars(KNext)
=============================================================================
