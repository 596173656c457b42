---------------------------- MODULE PThreadsTrace ----------------------------
(* Recorded commands of threads: the result, and who else came back by it. *)
EXTENDS PThreads, TraceBase
a == e.a
Call == CASE e.op = "start" -> Start(a[1], a[2])
          [] e.op = "lock" -> Lock(a[1], a[2])
          [] e.op = "try" -> TryLock(a[1], a[2])
          [] e.op = "unlock" -> Unlock(a[1], a[2])
          [] e.op = "wait" -> Wait(a[1], a[2], a[3], a[4])
          [] e.op = "timed" -> TimedOut(a[1], a[2], a[3])
          [] e.op = "signal" -> Signal(a[1], a[2], a[3])
          [] e.op = "end" -> End(a[1], a[2], a[3])
          [] e.op = "kill" -> Kill(a[1], a[2])
          [] e.op = "join" -> Join(a[1], a[2])
          [] e.op = "detach" -> Detach(a[1], a[2])
          [] e.op = "id" -> Id(a[1])
Reset_ == own' = [m \in Locks |-> 0] /\ st' = [t \in Threads |-> IF t = First THEN Idle ELSE None] /\ det' = {} /\ act' = <<"begin">> /\ out' = <<0, {}>>
TraceInit == l = 1 /\ Init
TraceNext == Step /\ (IF e.op = "reset" THEN Reset_ ELSE Call /\ out' = <<e.r, {e.back[k] : k \in 1..Len(e.back)}>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
