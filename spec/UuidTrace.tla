------------------------------ MODULE UuidTrace ------------------------------
(* Recorded zt_uuid calls. *)
EXTENDS Uuid, TraceBase
Do == CASE e.op = "gen" -> Generate(e.r)
        [] e.op = "named" -> Named(e.ns, e.a)
        [] e.op = "tostr" -> ToStr(e.a, e.f)
        [] e.op = "fill" -> Fill(e.a, e.b, e.k, e.f)
        [] e.op = "of" -> OfStr(e.a, e.f)
        [] e.op = "valid" -> Valid(e.a, e.f)
        [] e.op = "cmp" -> Compare(e.a, e.b)
TraceInit == l = 1 /\ Init
TraceNext == Step /\ Do /\ out' = e.r
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
