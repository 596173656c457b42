------------------------------ MODULE MtTrace ------------------------------
(* Recorded zt_random calls. *)
EXTENDS Mt, TraceBase
Do == CASE e.op = "seed" -> SeedOne(e.c, e.a)
        [] e.op = "array" -> \E key \in {e.a} : SeedMany(e.c, key)
        [] e.op = "draw" -> Draw(e.c, e.n)
        [] e.op = "real" -> Real(e.c, e.n, e.k)
        [] e.op = "load" -> Load(e.c, e.a)
Reset == e.op = "reset" /\ ctx' = [c \in Ctx |-> None] /\ act' = <<"start">> /\ out' = 0
TraceInit == l = 1 /\ IInit
TraceNext == Step /\ UNCHANGED <<mt, mti, last, drawn>> /\ (Reset \/ (e.op # "reset" /\ Do /\ out' = e.r))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
