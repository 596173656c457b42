------------------------------ MODULE OptsTrace ------------------------------
(* Recorded option definitions and command lines; v is every option's variable afterwards. *)
EXTENDS Opts, TraceBase
Dec(d) == [i \in 1..Len(d) |-> [s |-> d[i][1], l |-> d[i][2], k |-> d[i][3], h |-> d[i][4]]]
Call == CASE e.op = "define" -> Define(Dec(e.d))
          [] e.op = "process" -> Process(e.argv)
          [] e.op = "usage" -> Usage(e.name, e.help, e.texts)
Reset == e.op = "reset" /\ defs' = <<>> /\ val' = <<>> /\ out' = <<0, 0>> /\ act' = <<"init">>
TraceInit == l = 1 /\ defs = <<>> /\ val = <<>> /\ out = <<0, 0>> /\ act = <<"init">>
TraceNext == Step /\ (Reset \/ (e.op # "reset" /\ Call /\ out' = e.r /\ val' = e.v))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
