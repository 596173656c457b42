----------------------------- MODULE ProgTrace -----------------------------
(* Recorded calls.  The name and the path outlive a run; a run starts with no files, its own PATH and directory. *)
EXTENDS Prog, TraceBase
TraceInit == l = 1 /\ Init
Reset_ == /\ act' = <<"reset">> /\ exe' = e.exe /\ env' = <<>> /\ cwd' = Cwd0 /\ files' = {} /\ out' = 0
          /\ e.r = <<name, path>> /\ UNCHANGED <<name, path>>
TraceNext == Step /\ CASE e.op = "reset" -> Reset_
                       [] e.op = "name" -> SetName(e.a[1], e.a[2], e.r)
                       [] e.op = "path" -> Path(e.a[1], e.r)
                       [] e.op = "env" -> Env(e.a[1])
                       [] e.op = "cd" -> Cd(e.a[1])
                       [] e.op = "put" -> Put(e.a[1])
                       [] e.op = "rm" -> Rm(e.a[1])
                       [] e.op = "os" -> From(cwd, e.r) = From(cwd, Append(exe, SLASH) \o e.file) /\ act' = <<"os">> /\ UNCHANGED <<name, path, env, cwd, files, exe, out>>
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
