-------------------------------- MODULE LogTrace --------------------------------
(* Recorded calls of zt_log; r: result, w: what was written where. *)
EXTENDS Log, TraceBase
a == e.a
Reset == /\ e.op = "reset" /\ env' = [host |-> e.host, prog |-> e.prog, date |-> e.date, pid |-> e.pid]
         /\ lg' = [h \in 1..NH + 1 |-> NoLog] /\ def' = 0 /\ flen' = [d \in 0..3 |-> 0] /\ dbg' = [t \in 0..1 |-> NoDbg(0)]
         /\ out' = <<0, <<>>>> /\ act' = <<"init">>
Leave == e.op = "leave" /\ UNCHANGED lvars
Call == CASE e.op = "open" -> Open(a[1], a[2], a[3], a[4])
          [] e.op = "stderr" -> Stderr(a[1], a[2])
          [] e.op = "syslog" -> Syslog(a[1])
          [] e.op = "refused" -> Refused
          [] e.op = "setopts" -> SetOpts(a[1], a[2])
          [] e.op = "setlevel" -> SetLevel(a[1], a[2])
          [] e.op = "get" -> Get(a[1])
          [] e.op = "logger" -> Logger(a[1])
          [] e.op = "close" -> Close(a[1])
          [] e.op = "print" -> Say(a[1], a[2], a[3], a[4])
          [] e.op = "strerror" -> StrError(a[1], a[2], a[3], a[4], a[5])
          [] e.op = "setdbg" -> SetDebug(a[1], [f |-> a[2], l |-> a[3], n |-> a[4]])
          [] e.op = "getdbg" -> GetDebug(a[1])
          [] e.op = "many" -> Many(a[1], a[2], a[3], a[4], e.lines)
Out == IF e.op = "getdbg" THEN <<e.r, e.w[1], e.w[2]>> ELSE <<e.r, e.w>>
TraceInit == l = 1 /\ Init
TraceNext == Step /\ (Reset \/ Leave \/ (e.op \notin {"reset", "leave"} /\ Call /\ out' = Out))
TraceSpec == TraceInit /\ [][TraceNext]_<<lvars, l>>
=================================================================================
