----------------------------- MODULE PrimsTrace -----------------------------
(* Recorded calls of the thread indirection. *)
EXTENDS Prims, TraceBase
a == e.a
R(s) == {s[k] : k \in 1..Len(s)}
Call_ == CASE e.op = "setlock" -> SetLock(a[1], R(a[2]))
           [] e.op = "setcond" -> SetCond(a[1], R(a[2]))
           [] e.op = "setcntrl" -> SetCntrl(a[1], R(a[2]))
           [] e.op = "call" -> Call(a[1], a[2], a[3])
           [] e.op = "setpool" -> SetPool(a[1])
           [] e.op = "disable" -> Disable(a[1])
           [] e.op = "pool" -> Pool(a[1])
Reset_ == lk' = 0 /\ cd' = 0 /\ ct' = 0 /\ opt' = {} /\ pc' = [f \in PoolFns |-> Default(f)] /\ act' = <<"start">> /\ out' = Nil
TraceInit == l = 1 /\ Init
TraceNext == Step /\ (IF e.op = "reset" THEN Reset_ ELSE Call_ /\ out' = <<e.r, e.w>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
