----------------------------- MODULE EzPoolTrace -----------------------------
(* Recorded calls: fr the chunks freed (negative: freed the wrong way), ok every live chunk still holds its bytes,
   lk how many blocks are left.                                                                                 *)
EXTENDS EzPool, TraceBase
Call == CASE e.op = "init" -> Make(e.a[1])
          [] e.op = "alloc" -> Alloc(e.a[1], e.a[2], 0)
          [] e.op = "strdup" -> Strdup(e.a[1], e.a[2])
          [] e.op = "add" -> Add(e.a[1], e.a[2], 0)
          [] e.op = "destroy" -> Destroy(e.a[1])
Freed == Range(e.fr) = DOMAIN own \ DOMAIN own' /\ Len(e.fr) = Cardinality(Range(e.fr))
Tidy == Pools' = {} => e.lk = 0
Reset == e.op = "reset" /\ parent' = <<>> /\ own' = <<>> /\ n' = 0 /\ out' = 0 /\ act' = <<"init">>
TraceInit == l = 1 /\ Init
TraceNext == Step /\ (Reset \/ (e.op # "reset" /\ Call /\ out' = e.r /\ e.ok /\ Freed /\ Tidy))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
