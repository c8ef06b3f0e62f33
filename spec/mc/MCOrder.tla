------------------------------ MODULE MCOrder ------------------------------
EXTENDS Order, TLC
CONSTANT T
Vals == {Rat(p, q) : p \in -T..T, q \in 1..T}
Init == \E a, b \in Vals : OStart(a, b)
Spec == Init /\ [][ONext \/ ODone]_ovars /\ WF_ovars(ONext)
=============================================================================
