------------------------------ MODULE HashTrace ------------------------------
(* Recorded zt_sha1 calls. *)
EXTENDS Hash, TraceBase
Do == CASE e.op = "init" -> Start(e.c)
        [] e.op = "update" -> Feed(e.c, e.a)
        [] e.op = "many" -> FeedMany(e.c)
        [] e.op = "huge" -> FeedHuge(e.c)
        [] e.op = "final" -> Finish(e.c)
        [] e.op = "data" -> Whole(e.a)
        [] e.op = "tostr" -> ToText(e.a)
        [] e.op = "tosha" -> OfText(e.a)
Reset == e.op = "reset" /\ ctx' = [c \in 1..NC |-> None] /\ act' = <<"start">> /\ out' = 0
TraceInit == l = 1 /\ IInit
TraceNext == Step /\ UNCHANGED <<h, buf, cnt, steps>> /\ (Reset \/ (e.op # "reset" /\ Do /\ out' = e.r))
TraceSpec == TraceInit /\ [][TraceNext]_<<ivars, l>>
==============================================================================
