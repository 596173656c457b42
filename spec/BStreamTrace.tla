---------------------------- MODULE BStreamTrace ----------------------------
(* Recorded zt_bstream calls; s is [on, written bytes, position] of every stream, m the library's heap blocks.
   Typed reads and writes are reads and writes of the bytes of the value.                                     *)
EXTENDS BStream, TraceBase
Call == CASE e.op = "new" -> New(e.a[1])
          [] e.op = "write" -> Write(e.a[1], e.d)
          [] e.op = "read" -> Read(e.a[1], e.a[2])
          [] e.op = "rewind" -> Rewind(e.a[1])
          [] e.op = "truncate" -> Truncate(e.a[1])
          [] e.op = "isempty" -> IsEmpty(e.a[1])
          [] e.op = "flip" -> Flip(e.a[1])
          [] e.op = "clone" -> Clone(e.a[1], e.a[2])
          [] e.op = "setdata" -> SetData(e.a[1], e.d, e.a[2])
          [] e.op = "setarray" -> SetArray(e.a[1], e.d, e.a[2])
          [] e.op = "free" -> Free(e.a[1])
Reset == e.op = "reset" /\ S' = [i \in Ss |-> NONE] /\ out' = 0 /\ act' = <<"init">>
TraceInit == l = 1 /\ Init
TraceNext == Step /\ (Reset \/ (e.op # "reset" /\ Call /\ out' = e.r
                                /\ (\A i \in Ss : S'[i].d = e.s[i][1] /\ S'[i].p = e.s[i][2])
                                /\ ((\A i \in Ss : ~S'[i].on) => e.m = 0)))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
