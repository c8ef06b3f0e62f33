----------------------------- MODULE MCProgram -----------------------------
(* The demonstration program with a small machine word: it comes to its     *)
(* end, and what it writes can be read back.                                *)
EXTENDS Program, TLC

VARIABLE text       \* history: what the current line says so far

Letters == Specials \cup (Primers \ {"-"}) \cup {"A", "U", "H"}

MCInit == PInit /\ text = << >>

MCNext ==
    \/ \E i \in 1..Len(Announced) : WriteValue(Announced[i]) /\ text' = << >>
    \/ \E a \in Letters : Write(a) /\ text' = (IF line' # line THEN << >> ELSE Append(text, a))
    \/ state = "over" /\ UNCHANGED <<line, state, rest, text>>
MCSpec == MCInit /\ [][MCNext]_<<line, state, rest, text>> /\ WF_<<line, state, rest, text>>(MCNext)

\* the letters written so far and the rest give the value back
Symbol(a) == IF a = "A" THEN Amplify ELSE Uncover
Unread(s, c) == IF s = Amplify THEN (IF IsEven(c[1]) THEN <<Half(c[1]), c[2]>> ELSE <<c[1], Add(c[2], c[2])>>)
                ELSE <<c[2], Add(c[1], c[2])>>
RECURSIVE Back(_, _)
Back(t, c) == IF t = << >> THEN c ELSE Back(SubSeq(t, 1, Len(t) - 1), Unread(Symbol(t[Len(t)]), c))
ReadBack ==
    state = "body" =>
        LET h == IF text # << >> /\ text[1] \in Primers THEN text[1] ELSE "-"
            t == IF h = "-" THEN text ELSE Tail(text)
        IN  Primed(h, Back(t, rest)) = Announced[line]

OneLetter == state \in {"head", "body"} =>
    \E a \in Letters : ENABLED Write(a) /\ \A b \in Letters : ENABLED Write(b) => b = a

Finishes == <>(state = "over")
=============================================================================
