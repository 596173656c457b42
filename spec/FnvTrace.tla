------------------------------ MODULE FnvTrace ------------------------------
(* Recorded calls of the hash functions. *)
EXTENDS Fnv, TraceBase
TraceInit == l = 1 /\ Init
TraceNext == Step /\ Do(<<e.op>> \o e.a) /\ out' = e.r
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
