------------------------------ MODULE CStrTrace ------------------------------
(* Recorded calls of the slicing and searching functions. *)
EXTENDS CStr, TraceBase
TraceInit == l = 1 /\ Init
TraceNext == Step /\ Do(<<e.op>> \o e.a) /\ out' = e.r
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
