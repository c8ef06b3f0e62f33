------------------------------ MODULE MCMachine ------------------------------
(* Exhaustive small instances of Machine.                                   *)
EXTENDS Machine, TLC, Randomization, FiniteSets

CONSTANTS Kind,       \* "ratio", "hom", "com", "unit" (plus or minus x or 1/x)
                      \* or "unitcom" (combinations which are that when one operand is special)
          CLow, CHigh, \* coefficients (or numerators and denominators) are -CLow .. CHigh
          T,          \* operands are p/q with |p|, q <= T
          Sample      \* number of coefficient tuples drawn at random, 0 for all of them

Vals == {Rat(p, q) : p \in -T..T, q \in 1..T}

Some(S) == IF Sample = 0 THEN S ELSE RandomSubset(Sample, S)

Units == {<<g, 0, 0, s * g>> : g \in ((-CLow)..CHigh) \ {0}, s \in {-1, 1}}
         \cup {<<0, g, s * g, 0>> : g \in ((-CLow)..CHigh) \ {0}, s \in {-1, 1}}
\* a combination that is the function g when one operand is s
Mixed(a, g, s, first) ==
    LET b == [i \in 1..4 |-> g[i] - a[i] * s]
    IN  IF first THEN <<a[1], a[2], b[1], b[2], a[3], a[4], b[3], b[4]>>
        ELSE <<a[1], b[1], a[2], b[2], a[3], b[3], a[4], b[4]>>

\* draw the coefficients first; the operands are chosen by the first step
Draw ==
    CASE Kind = "ratio" -> [1..1 -> (-CLow)..CHigh]
      [] Kind = "hom"   -> Some([1..4 -> (-CLow)..CHigh])
      [] Kind = "unit"  -> Units
      [] Kind = "unitcom" -> {Mixed(a, g, s, first) : a \in Some([1..4 -> (-CLow)..CHigh]), g \in Units,
                                                     s \in {-1, 0, 1}, first \in BOOLEAN}
      [] Kind = "com"   -> Some([1..8 -> (-CLow)..CHigh])

Allowed(n) == IF RoomLimit = 0 THEN Endless ELSE n

MCInit ==
    /\ ph = "pick" /\ co \in Draw
    /\ x = Nil /\ y = Nil /\ rt = Nil /\ head = "?" /\ sym = -1 /\ ends = 0 /\ goal = Nil /\ core = Nil /\ room = 0

Pick ==
    /\ ph = "pick"
    /\ CASE Kind = "ratio" -> \E d \in (-CLow)..CHigh : Begin(StartRatio(co[1], d), Endless)
         [] Kind \in {"hom", "unit"} -> \E v \in Vals : Begin(StartHom(co, v), Allowed(HomRoom(co, v)))
         [] Kind = "unitcom" -> \E v \in Vals, w \in {-1, 0, 1}, first \in BOOLEAN :
                LET p == IF first THEN Rat(w, 1) ELSE v
                    q == IF first THEN v ELSE Rat(w, 1)
                IN  ComRoom(co, p, q) = Unbounded /\ Begin(StartCom(co, p, q), Unbounded)
         [] Kind = "com"   -> \E v \in Vals, w \in Vals : Begin(StartCom(co, v, w), Allowed(ComRoom(co, v, w)))

MCNext == Pick \/ MNext \/ MDone
MCSpec == MCInit /\ [][MCNext]_mvars
MCLive == MCSpec /\ WF_mvars(Pick \/ MNext)
=============================================================================
