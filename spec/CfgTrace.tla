------------------------------ MODULE CfgTrace ------------------------------
(* Recorded zt_cfg calls: the lines of the file that was opened, the text a set stored, the value a get gave. *)
EXTENDS Cfg, TraceBase
Call == CASE e.op = "open" -> Open(e.lines)
          [] e.op = "openmissing" -> OpenMissing
          [] e.op = "close" -> Close
          [] e.op = "nothing" -> Nothing
          [] e.op = "set" -> Set(<<e.b, e.n>>, e.t)
          [] e.op = "get" -> Get(<<e.b, e.n>>, e.ty)
Reset == e.op = "reset" /\ cfg' = Fn /\ open' = FALSE /\ out' = 0 /\ act' = <<"init">>
TraceInit == l = 1 /\ Init
TraceNext == Step /\ (Reset \/ (e.op # "reset" /\ Call /\ out' = e.r))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
