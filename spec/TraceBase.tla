----------------------------- MODULE TraceBase -----------------------------
(* What every trace specification shares: the recorded events, the cursor, acceptance. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLE l                                  \* the next event to explain
Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]
Range(s) == {s[i] : i \in 1..Len(s)}
Bag(s) == [x \in Range(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
Step == l <= Len(Trace) /\ l' = l + 1
TraceAccepted == /\ PrintT("@ACCEPTED " \o ToString(TLCGet("stats").diameter - 1))
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
