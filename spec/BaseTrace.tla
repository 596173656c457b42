------------------------------ MODULE BaseTrace ------------------------------
(* Recorded zt_base calls. *)
EXTENDS Base, TraceBase
Do == CASE e.op = "enc" -> Encode(e.d, e.p, e.how, e.a) /\ out' = e.r
        [] e.op = "dec" -> Decode(e.d, e.how, e.a, e.r)
        [] e.op = "bad" -> e.r = -1 /\ UNCHANGED <<data, out>> /\ act' = <<"bad">>       \* no place for the length
TraceInit == l = 1 /\ Init
TraceNext == Step /\ Do
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
