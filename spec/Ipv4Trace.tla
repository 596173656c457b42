------------------------------ MODULE Ipv4Trace ------------------------------
(* Recorded zt_ipv4_tbl calls; networks are given as text, f shows the fields of the node answered. *)
EXTENDS Ipv4, TraceBase
t == e.a[1]
Known(s) == (Good(s) \/ Refused(s)) = TRUE       \* a value, not alternatives
P(s) == NetOf(s)
Call == CASE e.op = "init" -> InitT(t)
          [] e.op = "destroy" -> Destroy(t)
          [] e.op = "add" -> Known(e.a[2]) /\ Add(t, P(e.a[2]))
          [] e.op = "addnode" -> Known(e.a[2]) /\ AddNode(t, P(e.a[2]))
          [] e.op = "search" -> Known(e.a[2]) /\ Search(t, P(e.a[2]))
          [] e.op = "searchnode" -> Known(e.a[2]) /\ Alone(t) /\ Search(t, P(e.a[2]))
          [] e.op = "lookups" -> Lookups(t, P(e.a[2]), e.a[3])
NodeOf(k) == CHOOSE p \in {tb'[t].m[i][2] : i \in {j \in 1..Len(tb'[t].m) : tb'[t].m[j][1] = k}} : TRUE
Shown == CASE e.op \in {"add", "addnode", "search", "searchnode"} -> e.f = IF e.r = 0 THEN <<>> ELSE Fields(NodeOf(e.r))
           [] e.op = "init" -> e.f = <<>>
           [] e.op = "destroy" -> (\A i \in 1..NT : ~tb'[i].up) => e.f = <<0>>     \* nothing is held any more
           [] OTHER -> TRUE
\* the helpers: text to address and length, address to text and back
Helper == /\ UNCHANGED <<tb, n>> /\ act' = <<e.op>> /\ out' = e.r
          /\ CASE e.op = "str2net" -> IF Good(e.a[1]) THEN e.r = 0 /\ e.f = <<Octets(Host(e.a[1])), BitLen(e.a[1])>>
                                      ELSE IF Refused(e.a[1]) THEN e.r = -1 /\ e.f = <<>> ELSE FALSE
               [] e.op = "int2ip" -> e.r = Dotted(e.a)
               [] e.op = "ip2int" -> GoodHost(e.a[1]) /\ e.r = Octets(e.a[1])
               [] OTHER -> FALSE
Helpers == {"str2net", "int2ip", "ip2int"}
Reset == e.op = "reset" /\ tb' = [i \in 1..NT |-> Down] /\ n' = 0 /\ out' = 0 /\ act' = <<"start">>
TraceInit == l = 1 /\ Init
TraceNext == Step /\ (Reset \/ (e.op \in Helpers /\ Helper) \/ (e.op \notin Helpers \cup {"reset"} /\ Call /\ out' = e.r /\ Shown))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
