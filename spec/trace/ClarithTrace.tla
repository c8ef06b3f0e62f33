---------------------------- MODULE ClarithTrace ----------------------------
(* Validation of recorded executions of the real library against Clarith.   *)
(*                                                                          *)
(* The file named by the environment variable TRACE has one case per line:  *)
(* the calls made by one run of a script, with arguments and observed       *)
(* results. A case is accepted when every recorded call is a step of        *)
(* Clarith; a case that cannot take the next recorded step deadlocks. When  *)
(* Blame is set, steps that break only properties other than Prop abandon   *)
(* the case instead (see Breaks), so that each property answers for itself. *)
(*                                                                          *)
(* When Canary is set, the cases are records of conforming runs in which    *)
(* one observation was falsified; each must be refused, at that place.      *)
EXTENDS Clarith, TLC, Json, IOUtils

CONSTANTS Prop, Blame, Canary

\* the limits for 64-bit machine words
TraceHomLimit == Lit(767)
TraceComLimit == Lit(95)
TraceStopLimit == <<1, 3951, 1369, 92, 5843, 230>>  \* a quarter of 2^63 - 1, rounded down
TraceRoomLimit == <<1, 7936, 3792, 5940, 2057, 7>>       \* 2^56

VARIABLES tid, l

tvars == <<reg, tid, l>>

Cases == ndJsonDeserialize(IOEnv.TRACE)

Ev == Cases[tid].ev
E == Ev[l]

Silent(e) == e.out = 0

\* what was observed when the same history was run a second time, or by the other build
Repeats == Cases[tid].again = Ev

\* the recorded call e is a step of the specification
Conforms(e) ==
    CASE e.op = "ratio"       -> Ratio(e.dst, e.c[1], e.c[2], e.res)
      [] e.op = "ratio_u"     -> RatioU(e.dst, e.pos, e.c[1], e.c[2], e.res)
      [] e.op = "special"     -> MakeSpecial(e.dst, e.v)
      [] e.op = "homographic" -> Homographic(e.dst, e.x, e.c, e.res)
      [] e.op = "combine"     -> Combine(e.dst, e.x, e.y, e.c, e.res)
      [] e.op = "compare"     -> Compare(e.x, e.y, e.res)
      [] e.op = "consume"     -> Consume(e.dst, e.x, e.c, e.res)
      [] e.op = "egest"       -> Egest(e.x, e.syms, e.res)
      [] e.op = "wrap"        -> Wrap(e.dst, e.x, e.p)
      [] e.op = "unwrap"      -> IF e.as = "s" THEN UnwrapSpecial(e.x, e.res) ELSE UnwrapOther(e.x, e.x, e.res)
      [] e.op = "move"        -> Move(e.dst, e.x)
      [] e.op = "drop"        -> Drop(e.x) /\ e.res = "ok"
      [] OTHER                -> FALSE        \* "hang", "crash"

-----------------------------------------------------------------------------
(* Which property a step that does not conform breaks                       *)

ZeroDen(e) ==
    CASE e.op \in {"ratio", "ratio_u"} -> Sgn(e.c[2]) = 0
      [] e.op = "homographic" -> Live(e.x) /\ Sgn(Lin(e.c[3], e.c[4], Val(reg[e.x]))) = 0
      [] e.op = "combine" -> Live(e.x) /\ Live(e.y) /\ Sgn(Bilin(e.c[5], e.c[6], e.c[7], e.c[8], Val(reg[e.x]), Val(reg[e.y]))) = 0
      [] OTHER -> FALSE

Kind(e) ==
    IF e.op \in {"hang", "crash"} THEN e.op
    ELSE IF e.res \in {"logic", "endless"} THEN e.res
    ELSE IF ZeroDen(e) THEN "div0-missed"
    ELSE IF e.res = "div0" THEN "div0-false"
    ELSE IF e.res = "panic" THEN "panic"
    ELSE "value"

Builders == {"ratio", "ratio_u", "homographic", "combine"}

\* C01, C02, .. as in properties.jsonl; the scripts of each property contain
\* only the operations that the property is about
Breaks(p, e) ==
    LET k == Kind(e)
        exact == k # "div0-missed"
    IN  CASE p = "C01" -> exact
          [] p = "C02" -> e.op \in {"egest", "hang", "crash"} /\ exact
          [] p = "C03" -> e.op \in {"compare", "hang", "crash"} /\ exact
          [] p = "C04" -> e.op \in {"homographic", "egest", "hang", "crash"} /\ exact
          [] p = "C05" -> e.op \in {"combine", "egest", "hang", "crash"} /\ exact
          [] p = "C06" -> exact
          [] p = "C07" -> e.op \in {"consume", "egest", "hang", "crash"} /\ exact
          [] p = "C08" -> k \in {"div0-missed", "div0-false"}
          [] p = "C09" -> k \notin {"panic", "div0-false"}
          [] p = "C10" -> k \in {"panic", "logic", "endless", "div0-false", "hang", "crash"}
          [] p = "C11" -> exact
          [] p = "C12" -> FALSE
          [] p = "C13" -> \/ k = "value" /\ e.op \in (Builders \cup {"unwrap"})
                          \/ k = "panic" /\ e.op = "unwrap"
          [] p = "C14" -> exact
          [] p = "C17" -> FALSE
          [] p = "C18" -> exact

-----------------------------------------------------------------------------
TraceInit == Init /\ tid \in 1..Len(Cases) /\ l = 1

\* what some properties ask for besides
Besides(e) ==
    /\ Prop = "C12" => Silent(e)
    /\ Prop = "C11" /\ l = Len(Ev) => Repeats
    /\ Prop = "C17" /\ l = 1 => Repeats

Step ==
    /\ l <= Len(Ev) /\ Conforms(E) /\ Besides(E)
    /\ l' = l + 1 /\ UNCHANGED tid

Abandon ==
    /\ Blame /\ l <= Len(Ev)
    /\ ~ENABLED Conforms(E)
    /\ Besides(E) /\ ~Breaks(Prop, E)
    /\ PrintT(<<"abandoned", Cases[tid].id, l>>)
    /\ l' = Len(Ev) + 1 /\ UNCHANGED <<reg, tid>>

Refuse ==
    /\ Canary /\ l <= Len(Ev)
    /\ ~Besides(E) \/ ~ENABLED Conforms(E)
    /\ PrintT(<<"refused", tid, l>>)
    /\ l' = Len(Ev) + 1 /\ UNCHANGED <<reg, tid>>

Accepted == l > Len(Ev) /\ UNCHANGED tvars

TraceNext == Step \/ Abandon \/ Refuse \/ Accepted

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
