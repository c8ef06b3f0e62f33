----------------------------- MODULE MCProtocol -----------------------------
(* Laws of the protocol, checked for every fraction with denominator up to  *)
(* Q, every symbol sequence up to length L, and every pair of fractions     *)
(* with denominators up to QPair. A behaviour walks down one expansion.     *)
EXTENDS Protocol, TLC, FiniteSets

CONSTANTS Q, L, QPair

VARIABLES start,   \* a fraction in (0,1)
          now,     \* its remainder
          done     \* symbols delivered so far

vars == <<start, now, done>>

Fractions(m) == {f \in (1..(m-1)) \X (2..m) : f[1] < f[2] /\ Gcd(f[1], f[2]) = 1}

Words(k) == UNION {[1..n -> {Amplify, Uncover}] : n \in 0..k}

RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)

Init == start \in Fractions(Q) /\ now = start /\ done = << >>

Next == /\ ~IsHalf(now)
        /\ done' = Append(done, SymOf(now)) /\ now' = After(now) /\ UNCHANGED start
Stop == IsHalf(now) /\ UNCHANGED vars

Spec == Init /\ [][Next \/ Stop]_vars /\ WF_vars(Next)

InUnit == 0 < now[1] /\ now[1] < now[2] /\ Gcd(now[1], now[2]) = 1

\* a step can be undone, so different fractions have different expansions
Undo == [][IsHalf(now) \/ Before(now', SymOf(now)) = now]_vars

\* what was delivered plus what remains determine the start
RECURSIVE Rebuild(_, _)
Rebuild(s, c) == IF s = << >> THEN c ELSE Before(Rebuild(Tail(s), c), Head(s))
Lossless == Rebuild(done, now) = start

LengthBound == LET k == Bits(start[2]) IN 2 * Len(done) <= k * (k + 3)

Ends == <>IsHalf(now)

\* every finite sequence is the expansion of the fraction it decodes to
EverySequence == \A s \in Words(L) : LET c == Decode(s) IN
                    /\ Encode(c) = s
                    /\ 0 < c[1] /\ c[1] < c[2] /\ Gcd(c[1], c[2]) = 1

\* the order of fractions is the order of their sequences
OrderOfSequences == \A c, d \in Fractions(QPair) : SeqCmp(Encode(c), Encode(d)) = RatCmp(c, d)

\* heads and fractions determine values and conversely
Heads == \A c \in Fractions(QPair), h \in Primers :
            LET v == Primed(h, c) IN HeadOf(v) = h /\ CoreOf(v) = c

\* the examples in the documentation of the library (src/protocol.rs)
Spell(t) == [i \in 1..Len(t) |-> IF t[i] = "A" THEN Amplify ELSE Uncover]
Documented(v, h, t) == HeadOf(v) = h /\ Encode(CoreOf(v)) = Spell(t)
Examples ==
    /\ Documented(<<1, 2>>, "-", << >>)
    /\ Documented(<<1, 10>>, "-", <<"A","A","A","U","A">>)
    /\ Documented(<<567, 1000>>, "-", <<"U","U","A","U","U","U","U","U","U","U","A","A","A","A","U","A">>)
    /\ Documented(<<8, 9>>, "-", <<"U","A","A">>)
    /\ Documented(<<-1, 2>>, "R", << >>)
    /\ Documented(<<5, 1>>, "T", <<"A","A","U","A">>)
    /\ Documented(Rat(-314, 100), "G", <<"A","U","U","U","A","U","U","U","A","A","U","U","U","U">>)

ASSUME Examples
ASSUME EverySequence
ASSUME OrderOfSequences
ASSUME Heads
=============================================================================
