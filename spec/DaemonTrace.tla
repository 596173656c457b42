---------------------------- MODULE DaemonTrace ----------------------------
(* What became of real calls: one event a call, after all its processes have ended. *)
EXTENDS Daemon, TraceBase
TraceInit == l = 1 /\ Init
Facts(d) == <<d.r, d.newsession, d.leader, d.indir, d.mask, {<<f[1], f[2]>> : f \in Range(d.fds)}>>
TraceNext == Step /\ UNCHANGED vars /\ CASE e.op = "reset" -> TRUE
                                         [] e.op = "daemon" -> e.r = Len(e.daemons) /\ Outcome(Range(e.faults), e.caller, e.started, [k \in 1..Len(e.daemons) |-> Facts(e.daemons[k])])
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
