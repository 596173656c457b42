------------------------------ MODULE IntsTrace ------------------------------
(* Recorded calls of the checked arithmetic. *)
EXTENDS Ints, TraceBase
TraceInit == l = 1 /\ Init
TraceNext == Step /\ Do(<<e.op>> \o e.a) /\ out' = e.r
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
