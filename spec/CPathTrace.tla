------------------------------ MODULE CPathTrace ------------------------------
(* Recorded calls of the cutting and path functions. *)
EXTENDS CPath, TraceBase
TraceInit == l = 1 /\ Init
TraceNext == Step /\ Do(<<e.op>> \o e.a) /\ out' = e.r
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
