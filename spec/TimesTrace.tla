----------------------------- MODULE TimesTrace -----------------------------
(* Recorded calls of the time functions. *)
EXTENDS Times, TraceBase
TraceInit == l = 1 /\ Init
TraceNext == Step /\ IF e.op = "reset" THEN UNCHANGED vars ELSE Do(<<e.op>> \o e.a) /\ out' = e.r
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
