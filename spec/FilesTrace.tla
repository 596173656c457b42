----------------------------- MODULE FilesTrace -----------------------------
(* Recorded calls; every event has the tree after it.  While a directory is made others may make something (did) and the
   system may refuse to make one; writing may fail.                                                                    *)
EXTENDS Files, TraceBase
TraceInit == l = 1 /\ Init
Now == {e.tree[k] : k \in 1..Len(e.tree)}
\* what others did, in order
Did(t) == FoldLeft(LAMBDA y, d : IF d[2] = "dir" THEN MakeAll(y, d[1], 493)[1] ELSE y \cup {<<Names(d[1]), "file", 420, <<>>>>}, t, e.did)
Mkdir_ == /\ act' = <<e.op>> \o e.a /\ out' = e.r /\ tree' = Now /\ mask' = mask
          /\ Made(tree, {n \in Did(Now) : \E k \in 1..Len(e.did) : IsPrefix(n[1], Names(e.did[k][1]))} \cap Now, e.refused, e.a[1], Masked(e.a[2]), e.a[3], e.r, Now)
FailedWrite == /\ act' = <<e.op>> \o e.a /\ out' = e.r /\ tree' = Now /\ mask' = mask
               /\ e.r = -1
               /\ IF Writable(tree, e.a[1]) THEN LET d == Target(tree, e.a[1]) IN {n \in Now : n[1] # d} = {n \in tree : n[1] # d} ELSE Now = tree
Reset_ == tree' = {} /\ mask' = 0 /\ act' = <<"start">> /\ out' = 0
TraceNext == Step /\ CASE e.op = "reset" -> Reset_
                       [] e.op = "mkdir" -> Mkdir_
                       [] e.op = "writepid" /\ e.fault # "" /\ (e.fault = "fails" \/ e.r = -1) -> FailedWrite
                       [] OTHER -> Do(<<e.op>> \o e.a) /\ (IF e.op = "basedir" THEN Single(e.r) ELSE e.r) = out' /\ tree' = Now
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
