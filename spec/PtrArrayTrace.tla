--------------------------- MODULE PtrArrayTrace ---------------------------
(* Recorded zt_ptr_array calls; s shows every array, q what was released by the call, m the library's heap blocks. *)
EXTENDS PtrArray, TraceBase
Call == CASE e.op = "new" -> New(e.a[1], e.a[2] = 1)
          [] e.op = "add" -> Add(e.a[1], e.a[2])
          [] e.op = "del" -> Del(e.a[1], e.a[2], e.s[e.a[1]])
          [] e.op = "cat" -> Append2(e.a[1], e.a[2])
          [] e.op = "resize" -> Resize(e.a[1], e.a[2])
          [] e.op = "move" -> Move(e.a[1], e.a[2], e.a[3])
          [] e.op = "get" -> Get(e.a[1], e.a[2])
          [] e.op = "copyout" -> CopyOut(e.a[1])
          [] e.op = "free" -> Free(e.a[1], e.a[2])
Reset == e.op = "reset" /\ P' = [i \in Is |-> NONE] /\ rel' = <<>> /\ out' = 0 /\ act' = <<"init">>
TraceInit == l = 1 /\ Init
TraceNext == Step /\ (Reset \/ (e.op # "reset" /\ Call /\ out' = e.r /\ rel' = e.q /\ (\A i \in Is : P'[i].d = e.s[i])
                                /\ ((\A i \in Is : ~P'[i].on) => e.m = 0)))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
