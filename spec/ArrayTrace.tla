----------------------------- MODULE ArrayTrace -----------------------------
(* Recorded zt_array calls; s shows every array as [element size, elements], m the library's heap blocks. *)
EXTENDS Array, TraceBase
Call == CASE e.op = "new" -> New(e.a[1], e.a[2], e.a[3])
          [] e.op = "with" -> With(e.a[1], e.d, e.a[2], e.a[3])
          [] e.op = "setdata" -> SetData(e.a[1], e.d, e.a[2], e.a[3])
          [] e.op = "resize" -> Resize(e.a[1], e.a[2])
          [] e.op = "copy" -> Copy(e.a[1], e.a[2], e.a[3])
          [] e.op = "setlen" -> SetLen(e.a[1], e.a[2])
          [] e.op = "put" -> Store(e.a[1], e.a[2], e.d[1])
          [] e.op = "get" -> Get(e.a[1], e.a[2])
          [] e.op = "elemcopy" -> ElemCopy(e.a[1], e.a[2])
          [] e.op = "free" -> Free(e.a[1])
Reset == e.op = "reset" /\ A' = [i \in Arrs |-> NONE] /\ out' = 0 /\ act' = <<"init">>
TraceInit == l = 1 /\ Init
TraceNext == Step /\ (Reset \/ (e.op # "reset" /\ Call /\ out' = e.r
                                /\ (\A i \in Arrs : A'[i].z = e.s[i][1] /\ A'[i].d = e.s[i][2])
                                /\ ((\A i \in Arrs : A'[i].z = 0) => e.m = 0)))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
