------------------------------ MODULE CHexTrace ------------------------------
(* Recorded calls of the dumping and number functions. *)
EXTENDS CHex, TraceBase
TraceInit == l = 1 /\ Init
TraceNext == Step /\ Do(<<e.op>> \o e.a) /\ out' = e.r
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
