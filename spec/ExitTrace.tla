----------------------------- MODULE ExitTrace -----------------------------
(* One process after another: what it registers, how it ends, what runs then, and what it ended with. *)
EXTENDS Exit, TraceBase
TraceInit == l = 1 /\ Init
Reset_ == todo' = <<>> /\ late' = <<>> /\ ended' = FALSE /\ ran' = <<>> /\ made' = 0 /\ act' = <<"start">> /\ out' = 0
TraceNext == Step /\ CASE e.op = "reset" -> (l = 1 \/ act[1] = "gone") /\ Reset_
                       [] e.op = "reg" -> Register(e.a[1])
                       [] e.op = "late" -> Late(e.a[1])
                       [] e.op = "wake" -> Wake
                       [] e.op = "exit" -> Exit(e.a[1])
                       [] e.op = "run" -> Run /\ out' = e.r
                       [] e.op = "gone" -> ended /\ todo = <<>> /\ late = <<>> /\ e.r = 0 /\ act' = <<"gone">> /\ UNCHANGED <<todo, late, ended, ran, made, out>>
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
