----------------------------- MODULE LListTrace -----------------------------
(* Recorded zt_llist calls; s shows both lists after the call. *)
EXTENDS LList, TraceBase
Call == CASE e.op = "push" -> Push(e.a[1], e.a[2])
          [] e.op = "pop" -> Pop(e.a[1])
          [] e.op = "move" -> Move(e.a[1], e.a[2])
          [] e.op = "nth" -> Nth(e.a[1], e.a[2])
          [] e.op = "nthtail" -> NthTail(e.a[1], e.a[2])
          [] e.op = "reverse" -> Reverse(e.a[1], e.a[2])
          [] e.op = "nreverse" -> NReverse(e.a[1])
          [] e.op = "sort" -> Sort(e.a[1], e.s[e.a[1]])
          [] e.op = "merge" -> Merge(e.a[1], e.a[2], e.s[e.a[1]])
          [] e.op = "split" -> Split(e.a[1], e.a[2])
          [] e.op = "free" -> Free(e.a[1])
Reset == e.op = "reset" /\ L' = [i \in 1..N |-> <<>>] /\ out' = NONE /\ act' = <<"init">>
TraceInit == l = 1 /\ Init
TraceNext == Step /\ (Reset \/ (e.op # "reset" /\ Call /\ out' = e.r /\ L' = e.s))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
