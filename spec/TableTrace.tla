----------------------------- MODULE TableTrace -----------------------------
(* A recorded run of the real zt_table against Table: every event is one call, r its result,
   e whether a get or del set errno to ENOENT, s the (key, value) pairs a full iteration shows afterwards, sorted.               *)
EXTENDS Table, TraceBase
Pairs(f) == UNION {{<<k, f[k][i]>> : i \in 1..Len(f[k])} : k \in DOMAIN f}
DumpBag(f) == [p \in Pairs(f) |-> Cardinality({i \in 1..Len(f[p[1]]) : f[p[1]][i] = p[2]})]
Seen(t) == IF dup[t] THEN DumpBag(tab'[t]) = Bag(e.s)
           ELSE LET f == tab'[t] D == DOMAIN f s == e.s IN
                /\ Len(s) = Cardinality(D)
                /\ \A i \in 1..Len(s) : s[i][1] \in D /\ f[s[i][1]] = <<s[i][2]>> /\ (i > 1 => s[i - 1][1] < s[i][1])

Call == CASE e.op = "set" -> Set(e.a[1], e.a[2], e.a[3]) /\ Seen(e.a[1])
          [] e.op = "get" -> Get(e.a[1], e.a[2]) /\ e.e = ~Has(e.a[1], e.a[2]) /\ Seen(e.a[1])
          [] e.op = "fill" -> Fill(e.a[1], e.a[2], e.a[3]) /\ Seen(e.a[1])
          [] e.op = "find" -> Find(e.a[1], e.a[2], e.a[3]) /\ Seen(e.a[1])
          [] e.op = "wipe" -> Wipe(e.a[1], e.a[2], e.a[3]) /\ Seen(e.a[1])
          [] e.op = "del" -> Del(e.a[1], e.a[2]) /\ e.e = ~Has(e.a[1], e.a[2]) /\ Seen(e.a[1])
          [] e.op = "eachdel" -> EachDel(e.a[1], Range(e.a[2])) /\ Seen(e.a[1])
          [] e.op = "eachstop" -> EachStop(e.a[1], e.a[2]) /\ Seen(e.a[1])
          [] e.op = "copy" -> Copy(e.a[1], e.a[2]) /\ Seen(e.a[2])
Reset == /\ e.op = "reset" /\ dup' = e.a
         /\ tab' = <<Empty, Empty>> /\ out' = NONE /\ act' = <<"init">>
TraceInit == l = 1 /\ tab = <<Empty, Empty>> /\ dup = <<FALSE, FALSE>> /\ out = NONE /\ act = <<"init">>
TraceNext == /\ Step
             /\ \/ Reset
                \/ e.op # "reset" /\ Call /\ out' = e.r
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceUnique == \A t \in 1..2 : ~dup[t] => \A k \in DOMAIN tab[t] : Len(tab[t][k]) = 1
=============================================================================
