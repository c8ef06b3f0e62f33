---------------------------- MODULE ProgramTrace ----------------------------
(* Validation of what the demonstration program wrote. The file named by    *)
(* the environment variable TRACE has one run per line: the values and      *)
(* letters written, in order, and how the run ended.                        *)
EXTENDS Program, TLC, Json, IOUtils

TraceMaxWord == <<1, 5807, 5477, 368, 3372, 922>>     \* 2^63 - 1

VARIABLES tid, l

tvars == <<line, state, rest, tid, l>>

Runs == ndJsonDeserialize(IOEnv.TRACE)
Ev == Runs[tid].ev
E == Ev[l]

TraceInit == PInit /\ tid \in 1..Len(Runs) /\ l = 1

Step ==
    /\ l <= Len(Ev)
    /\ CASE E.op = "value"  -> WriteValue(E.v)
         [] E.op = "letter" -> Write(E.l)
         [] E.op = "exit"   -> state = "over" /\ E.code = 0 /\ UNCHANGED pvars
         [] OTHER           -> FALSE        \* a line of another form
    /\ l' = l + 1 /\ UNCHANGED tid

Accepted == l > Len(Ev) /\ UNCHANGED tvars

TraceSpec == TraceInit /\ [][Step \/ Accepted]_tvars
=============================================================================
