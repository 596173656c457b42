---------------------------- MODULE RBTreeTrace ----------------------------
(* Recorded zt_rbt calls; t is the tree found in memory after the call, [colour,left,key,right] nested,
   p says whether every parent link matched.                                                          *)
EXTENDS RBTree, TraceBase
Call == CASE e.op = "insert" -> Insert(e.a[1], e.t)
          [] e.op = "remove" -> Remove(e.a[1], e.t)
          [] e.op = "find" -> Find(e.a[1])
          [] e.op = "nfind" -> NFind(e.a[1])
          [] e.op = "next" -> Succ(e.a[1])
          [] e.op = "min" -> Min
          [] e.op = "max" -> Max
          [] e.op = "walk" -> Walk(e.r)
          [] e.op = "walkdel" -> WalkDel(Range(e.a), e.r, e.t)
Reset == e.op = "reset" /\ S' = {} /\ tree' = Nil /\ out' = NONE /\ act' = <<"init">>
TraceInit == l = 1 /\ Init
TraceNext == Step /\ (Reset \/ (e.op # "reset" /\ Call /\ out' = e.r /\ tree' = e.t /\ e.p))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
