------------------------------ MODULE SureTrace ------------------------------
(* Recorded calls; what ends for want of memory says that an assertion failed. *)
EXTENDS Sure, TraceBase
TraceInit == l = 1 /\ Init
TraceNext == Step /\ Do(<<e.op>> \o e.a) /\ out' = e.r /\ (e.op \in {"alloc", "dup"} => e.said = (e.r[1] = "abort"))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
