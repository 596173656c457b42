------------------------------ MODULE PoolTrace ------------------------------
(* Recorded pool calls: r result, pg the block the element lies in, fr the blocks given back, ncb the number of
   times the release callback ran, st = [pages, free pages, page allocs, page frees, elements per page, element size, elements asked for, page size] of every pool afterwards, ok: every element in use still holds the bytes written to it.               *)
EXTENDS Pool, TraceBase
St(p) == e.st[p]
Gone(p) == Range(e.fr) \cap Ids(p)
AnonGone(p) == IF St(p) = <<>> THEN 0 ELSE NPages(p) - Cardinality(Gone(p)) - St(p)[1]
Left == [p \in group |-> IF St(p) = <<>> THEN NONE ELSE Doomed(p, Gone(p), AnonGone(p))]
Where == LET s == e.el n == Len(s) \div 2 IN [g \in {s[2 * i] : i \in 1..n} |-> {s[2 * i - 1] : i \in {i \in 1..n : s[2 * i] = g}}]
\* a display shows exactly those asked for, each as it is
Told == LET w == Whom(e.a[1], e.a[2]) IN Range(e.sh) = {Card(p, e.a[3]) : p \in w} /\ Len(e.sh) = Cardinality(w)
Call == CASE e.op = "init" -> IF failing THEN InitPool(e.a[1], e.a[3], e.a[4], 1, 1, e.a[2])
                              ELSE St(e.a[1]) # <<>> /\ InitPool(e.a[1], e.a[3], e.a[4], St(e.a[1])[5], St(e.a[1])[1], e.a[2])
          [] e.op = "alloc" -> Alloc(e.a[1], e.r, e.pg)
          [] e.op = "release" -> Release(e.a[1])
          [] e.op = "takes" -> Takes(e.a[1], e.a[2], Where)
          [] e.op = "drops" -> Drops(e.a[1], e.a[2])
          [] e.op = "trim" -> Trim(e.a[1])
          [] e.op = "destroy" -> AnonGone(e.a[1]) >= 0 /\ Destroy(e.a[1], Gone(e.a[1]) \cap Empty(e.a[1]), AnonGone(e.a[1]))
          [] e.op = "find" -> Find(e.a[1])
          [] e.op = "cb" -> Cb(e.a[1])
          [] e.op = "fail" -> Fail
          [] e.op = "ginit" -> GInit(<<e.a[1], e.a[2], e.a[3]>>, e.a[4],
                                     IF e.r = 1 THEN [i \in 1..3 |-> IF St(3 + i) = <<>> THEN 0 ELSE St(3 + i)[5]] ELSE <<>>,
                                     IF e.r = 1 THEN [i \in 1..3 |-> IF St(3 + i) = <<>> THEN 0 ELSE St(3 + i)[1]] ELSE <<>>)
          [] e.op = "galloc" -> GAlloc(e.a[1], e.r, e.pg)
          [] e.op = "show" -> Show(e.a[1], e.a[2], e.a[3]) /\ Told
          [] e.op = "heap" -> Heap(e.a[1], e.a[2])
          [] e.op = "unheap" -> Unheap(e.a[1])
          [] e.op = "gdestroy" -> GDestroy(Left)
Stats == \A p \in 1..NP : IF pool'[p] = NONE THEN St(p) = <<>>
                          ELSE LET q == pool'[p]  IN
                               SubSeq(St(p), 1, 7) = <<NPages(p)', NFree(p)', q.na, q.nf, q.epp, q.size, q.req>> /\ St(p)[8] >= q.epp * q.size
\* exactly the pages that left a pool were given back
Freed == Range(e.fr) = AllIds \ (AllIds') /\ Len(e.fr) = Cardinality(Range(e.fr))
\* the release callback is asked exactly when a page of such a pool becomes free
Asked == e.ncb = IF e.op = "release" /\ \E p \in Pools : pool[p].pol = 2 /\ \E g \in Ids(p) : pool[p].pg[g] = {e.a[1]}
                 THEN 1
                 ELSE IF e.op = "drops" THEN LET Of(p) == IF p \in Pools /\ pool[p].pol = 2 THEN Cardinality(Emptied(p, e.a[1]..e.a[2])) ELSE 0
                                             IN Of(1) + Of(2) + Of(3)
                 ELSE 0
\* once every pool is gone no memory is left behind
Tidy == Pools' = {} /\ heaps' = [h \in 1..2 |-> 0] /\ e.op # "fail" => e.lk = 0
Reset == /\ e.op = "reset" /\ pool' = [p \in 1..NP |-> NONE] /\ group' = {} /\ cb' = 1 /\ heaps' = [h \in 1..2 |-> 0] /\ failing' = FALSE
         /\ out' = 0 /\ act' = <<"init">>
TraceInit == l = 1 /\ Init
TraceNext == Step /\ (Reset \/ (e.op # "reset" /\ Call /\ out' = e.r /\ e.ok /\ Stats /\ Freed /\ Asked /\ Tidy))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
