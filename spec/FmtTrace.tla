------------------------------ MODULE FmtTrace ------------------------------
(* Recorded calls of the formatting functions. *)
EXTENDS Fmt, TraceBase
TraceInit == l = 1 /\ Init
TraceNext == Step /\ Do(<<e.op>> \o e.a) /\ out' = e.r
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
