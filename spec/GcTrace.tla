------------------------------- MODULE GcTrace -------------------------------
(* Recorded collector calls: fr the objects released, mk how many objects were scanned, ls every object the
   collector lists afterwards.                                                                              *)
EXTENDS Gc, TraceBase
VARIABLES marks,
          per,    \* registrations between two steps of the collector's own
          regs,   \* registrations since its last step
          both,   \* and removals
          last,   \* the object registered last since then, 0: none
          idle,   \* partial collections since the last other call, when every one is a step
          many    \* objects there were at the first of them
tick == <<per, regs, both, last, idle, many>>
ManyObj == 1..620
R == Range(e.fr)
Call == CASE e.op \in {"protect", "protectnew"} -> Protect(e.a[1])
          [] e.op = "unprotect" -> Unprotect(e.a[1])
          [] e.op = "register" -> Register(e.a[1], R)
          [] e.op = "unregister" -> Unregister(e.a[1], R)
          [] e.op = "link" -> Link(e.a[1], e.a[2])
          [] e.op = "unlink" -> Unlink(e.a[1], e.a[2])
          [] e.op = "mark" -> Mark(e.a[1])
          [] e.op = "collect" -> Collect(e.a[1] = 1, R)
          [] e.op = "disable" -> Disable
          [] e.op = "enable" -> Enable(R)
          [] e.op = "destroy" -> Destroy(R)
Listed == Range(e.ls) = live' /\ Len(e.ls) = Cardinality(live')
\* a partial collection scans a bounded number of objects
Bounded == e.op \in {"destroy", "collect"} \/ e.mk <= marks
BoundedCollect == ~(e.op = "collect" /\ e.a[1] = 0) \/ e.mk <= marks
\* collections start by themselves: the per-th registration, or enabling when it is overdue, takes a step, and none is taken early
Stepped == e.mk > 0
Tick ==
    LET on == off' = 0
        cleared == regs' = 0 /\ both' = 0 /\ last' = 0
    IN CASE e.op = "register" -> /\ on /\ regs + 1 >= per => Stepped
                                 /\ on /\ both + 1 < per => ~Stepped
                                 /\ IF on /\ Stepped THEN cleared ELSE regs' = regs + 1 /\ both' = both + 1 /\ last' = e.a[1]
         [] e.op = "unregister" -> IF Stepped THEN cleared
                                   ELSE regs' = regs /\ both' = both + 1 /\ last' = (IF last = e.a[1] THEN 0 ELSE last)
         [] e.op = "enable" -> /\ on /\ regs >= per /\ last \in live => Stepped
                               /\ IF on /\ (Stepped \/ both >= per) THEN cleared ELSE UNCHANGED <<regs, both, last>>
         [] e.op = "collect" -> IF on /\ (Stepped \/ e.a[1] = 1 \/ both >= per) THEN cleared ELSE UNCHANGED <<regs, both, last>>
         [] OTHER -> UNCHANGED <<regs, both, last>>
\* nothing but partial collections for long enough: no garbage is left
Idle == /\ IF e.op = "collect" /\ e.a[1] = 0 /\ off = 0 /\ per < 1
           THEN idle' = idle + 1 /\ many' = (IF idle = 0 THEN Cardinality(live) ELSE many)
           ELSE idle' = 0 /\ many' = 0
        /\ idle' > 0 /\ idle' % 8 = 0 /\ idle' >= 3 * (many' + 1) => live' = Reach(prot', ref')
        /\ UNCHANGED per
Reset == /\ e.op = "reset" /\ per' = e.a[2] /\ regs' = 0 /\ both' = 0 /\ last' = 0 /\ idle' = 0 /\ many' = 0 /\ marks' = (IF e.a[1] < 1 THEN 1 ELSE e.a[1])
         /\ live' = {} /\ prot' = {} /\ ref' = [x \in Obj |-> {}] /\ off' = 0 /\ fresh' = 0 /\ age' = [x \in Obj |-> 0]
         /\ rel' = {} /\ ok' = TRUE /\ act' = <<"init">>
TraceInit == l = 1 /\ GcInit /\ marks = 1 /\ per = 1 /\ regs = 0 /\ both = 0 /\ last = 0 /\ idle = 0 /\ many = 0
TraceNext == Step /\ (Reset \/ /\ e.op # "reset" /\ Call /\ (e.op \in {"protect", "protectnew"} => act'[1] = e.op) /\ rel' = R /\ e.r = Cardinality(R) /\ ok' /\ ~e.bad
                               /\ Listed /\ Bounded /\ BoundedCollect /\ Tick /\ Idle /\ UNCHANGED marks)
TraceSpec == TraceInit /\ [][TraceNext]_<<gcvars, l, marks, tick>>
TraceOk == ok
=============================================================================
