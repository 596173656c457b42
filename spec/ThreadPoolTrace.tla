--------------------------- MODULE ThreadPoolTrace ---------------------------
(* Recorded calls and callbacks of thread pools.  r repeats the last argument. *)
EXTENDS ThreadPool, TraceBase
VARIABLES hasinit, out
a == e.a
Same == UNCHANGED <<hasinit>>
Call == CASE e.op = "pool" -> Create(a[1], a[2], a[3]) /\ hasinit' = a[4] /\ out' = 0
          [] e.op = "start" -> Start /\ Same /\ out' = 0
          [] e.op = "insb" -> InsB(a[1]) /\ Same /\ out' = a[1]
          [] e.op = "inse" -> InsE(a[1]) /\ Same /\ out' = a[1]
          [] e.op = "oinsb" -> OInsB(a[1]) /\ Same /\ out' = a[1]
          [] e.op = "oinse" -> OInsE(a[1]) /\ Same /\ out' = a[1]
          [] e.op = "birth" -> a[3] = hasinit /\ Birth(IF a[1] = 1 THEN "i" ELSE "o", a[2]) /\ Same /\ out' = hasinit
          [] e.op = "iwork" -> IWork(a[1], a[2]) /\ Same /\ out' = a[2]
          [] e.op = "idone" -> IDone(a[1], a[2]) /\ Same /\ out' = a[2]
          [] e.op = "owork" -> OWork(a[1], a[2]) /\ Same /\ out' = a[2]
          [] e.op = "odone" -> ODone(a[1], a[2]) /\ Same /\ out' = a[2]
          [] e.op = "final" -> Final(a[1], a[2]) /\ Same /\ out' = a[2]
          [] e.op = "exit" -> (IF a[1] = 1 THEN IExit(a[2]) ELSE OExit(a[2])) /\ Same /\ out' = a[2]
          [] e.op = "getb" -> GetB /\ Same /\ out' = 0
          [] e.op = "gete" -> GetE(a[1]) /\ Same /\ out' = a[1]
          [] e.op = "quiet" -> Settled /\ Same /\ out' = 0
          [] e.op = "killb" -> KillB /\ Same /\ out' = 0
          [] e.op = "kille" -> KillE /\ Same /\ out' = 0
          [] e.op = "pipes" -> Pipes(a[1], a[2]) /\ Same /\ out' = a[2]
          [] e.op = "nopipe" -> UNCHANGED tvars /\ Same /\ out' = 0
          [] e.op = "timed" -> a = <<1, 3>> /\ UNCHANGED tvars /\ Same /\ out' = 1
          [] OTHER -> FALSE /\ UNCHANGED tvars /\ Same /\ UNCHANGED out
TraceInit == /\ l = 1 /\ ni = 0 /\ no = 0 /\ fin = FALSE /\ phase = "dead" /\ iq = {} /\ oq = {} /\ ibef = <<>> /\ obef = <<>>
             /\ ipend = {} /\ opend = {} /\ it = <<>> /\ ot = <<>> /\ got = {} /\ sig = <<0, 0>> /\ hasinit = 0 /\ out = 0
TraceNext == Step /\ Call /\ out' = e.r
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, hasinit, out, l>>
=============================================================================
