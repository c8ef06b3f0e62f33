------------------------------ MODULE Program ------------------------------
(* The demonstration program: for each of a list of values it writes the    *)
(* value and then, letter by letter, the value's representation.            *)
EXTENDS Protocol

CONSTANT MaxWord      \* largest machine integer

VARIABLES line,       \* number of the line being written
          state,      \* "value", "head", "body", "over"
          rest        \* what the body has still to say, or << >>

pvars == <<line, state, rest>>

\* 0, 1/2, 1, 3/2 .. 16, 33/2, and three values at the ends of the range
Announced == [i \in 1..34 |-> Rat(Lit(i - 1), Lit(2))] \o
             << <<MaxWord, One>>, <<One, MaxWord>>, <<Lit(-2), One>> >>

Letter(s) == CASE s = Amplify -> "A" [] s = Uncover -> "U" [] s = Ended -> "H"

PInit == line = 1 /\ state = "value" /\ rest = << >>

NextLine == line' = line + 1 /\ state' = (IF line = Len(Announced) THEN "over" ELSE "value") /\ rest' = << >>

\* the value is written
WriteValue(v) ==
    /\ state = "value" /\ v = Announced[line]
    /\ state' = (IF HeadOf(v) = "-" THEN "body" ELSE "head")
    /\ rest' = (IF HeadOf(v) \in Specials THEN << >> ELSE CoreOf(v))
    /\ UNCHANGED line

\* the letter of a special value ends the line; that of a primer does not
WriteHead(l) ==
    /\ state = "head" /\ l = HeadOf(Announced[line])
    /\ IF l \in Specials THEN NextLine ELSE state' = "body" /\ UNCHANGED <<line, rest>>

WriteSymbol(l) ==
    /\ state = "body" /\ l = Letter(SymOf(rest))
    /\ IF l = "H" THEN NextLine ELSE rest' = After(rest) /\ UNCHANGED <<line, state>>

Write(l) == WriteHead(l) \/ WriteSymbol(l)
=============================================================================
