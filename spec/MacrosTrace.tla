----------------------------- MODULE MacrosTrace -----------------------------
(* Recorded uses of the helper macros. *)
EXTENDS Macros, TraceBase
TraceInit == l = 1 /\ Init
TraceNext == Step /\ Do(<<e.op>> \o e.a) /\ out' = e.r
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
