------------------------------ MODULE BufTrace ------------------------------
(* Recorded zt_buf calls: s the contents of every buffer ([-1] when it does not exist), u the unused space,
   m the number of heap blocks the library holds.                                                           *)
EXTENDS Buf, TraceBase
k == e.u[e.a[1]]
Call == CASE e.op = "new" -> New(e.a[1])
          [] e.op = "add" -> Add(e.a[1], e.d, k)
          [] e.op = "addbuf" -> AddBuf(e.a[1], e.a[2], k)
          [] e.op = "iov" -> Iov(e.a[1], e.d, k)
          [] e.op = "drain" -> Drain(e.a[1], IF e.a[2] < 0 THEN 1000000 ELSE e.a[2], k)
          [] e.op = "remove" -> Remove(e.a[1], e.a[2], k)
          [] e.op = "reserve" -> Reserve(e.a[1], e.a[2], k)
          [] e.op = "expand" -> Expand(e.a[1], e.a[2], k)
          [] e.op = "free" -> Free(e.a[1])
          [] e.op = "nomem" -> NoMem
Reset == /\ e.op = "reset" /\ s' = [i \in Bufs |-> NONE] /\ room' = [i \in Bufs |-> 0] /\ failing' = FALSE
         /\ out' = 0 /\ act' = <<"init">>
TraceInit == l = 1 /\ Init
\* the unused space of the buffer that was emptied by addbuf may be anything at least as large
TraceNext == Step /\ (Reset \/ (e.op # "reset" /\ Call /\ out' = e.r /\ s' = e.s /\ room' = e.u
                                /\ ((\A i \in Bufs : s'[i] = NONE) => e.m = 0)))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
