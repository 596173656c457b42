----------------------------- MODULE ListsTrace -----------------------------
(* Recorded list/stack/queue calls; f and b are the lists walked forwards and backwards after the call. *)
EXTENDS Lists, TraceBase
Call == CASE e.op = "add" -> Add(e.a[1], e.a[2])
          [] e.op = "addtail" -> AddTail(e.a[1], e.a[2])
          [] e.op = "push" -> Push(e.a[1], e.a[2])
          [] e.op = "enqueue" -> Enqueue(e.a[1], e.a[2])
          [] e.op = "remove" -> Remove(e.a[1], e.a[2])
          [] e.op = "pop" -> Pop(e.a[1])
          [] e.op = "dequeue" -> Dequeue(e.a[1])
          [] e.op = "speek" -> SPeek(e.a[1])
          [] e.op = "qpeek" -> QPeek(e.a[1])
          [] e.op = "empty" -> Empty(e.a[1])
          [] e.op = "join" -> Join(e.a[1], e.a[2])
          [] e.op = "eachdel" -> EachDel(e.a[1], {e.a[i] : i \in 2..Len(e.a)})
Seen == \A h \in 1..N : L'[h] = e.f[h] /\ Rev(L'[h]) = e.b[h]
Reset == e.op = "reset" /\ L' = [h \in 1..N |-> <<>>] /\ out' = NONE /\ act' = <<"init">>
TraceInit == l = 1 /\ Init
TraceNext == Step /\ (Reset \/ (e.op # "reset" /\ Call /\ out' = e.r /\ Seen))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
