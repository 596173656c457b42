------------------------------ MODULE SetTrace ------------------------------
(* Recorded zt_set calls; m lists the members of all sets after the call, as an iteration shows them. *)
EXTENDS Set, TraceBase
Seen == \A i \in 1..N : s'[i] = Range(e.m[i]) /\ Cardinality(s'[i]) = Len(e.m[i])
Call == CASE e.op = "insert" -> Insert(e.a[1], e.a[2])
          [] e.op = "remove" -> Remove(e.a[1], e.a[2])
          [] e.op = "fill" -> Fill(e.a[1], e.a[2], e.a[3])
          [] e.op = "drop" -> Drop(e.a[1], e.a[2], e.a[3])
          [] e.op = "member" -> Member(e.a[1], e.a[2])
          [] e.op = "union" -> Union(e.a[1], e.a[2], e.a[3])
          [] e.op = "inter" -> Inter(e.a[1], e.a[2], e.a[3])
          [] e.op = "diff" -> Diff(e.a[1], e.a[2], e.a[3])
          [] e.op = "subset" -> Subset(e.a[1], e.a[2])
          [] e.op = "equal" -> Equal(e.a[1], e.a[2])
          [] e.op = "size" -> Size(e.a[1])
          [] e.op = "eachstop" -> EachStop(e.a[1], e.a[2])
          [] e.op = "destroy" -> Destroy(e.a[1])
Result == IF e.op = "destroy" THEN out' = Range(e.r) /\ Len(e.r) = Cardinality(out') ELSE out' = e.r
Reset == e.op = "reset" /\ s' = [i \in 1..N |-> {}] /\ out' = 0 /\ act' = <<"init">>
TraceInit == l = 1 /\ Init
TraceNext == Step /\ (Reset \/ (e.op # "reset" /\ Call /\ Result /\ Seen))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
