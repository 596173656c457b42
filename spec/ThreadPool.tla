------------------------------- MODULE ThreadPool -------------------------------
(* zt_threadpool as its user sees it: inputs are handed to the input workers, what those return to the output
   workers, what those return to the finalizer; each exactly once, whatever the schedule, and kill comes back when
   everything is done and every thread is gone.  An action is a call or return at the user's side, so an insertion
   takes effect somewhere between its two actions, and a thread may have taken an item it has not yet begun.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES ni, no,         \* number of input and output threads (0: none of that kind)
          fin,            \* is there a finalizer
          phase,          \* "new", "run" (started), "kill" (being killed), "dead"
          iq, oq,         \* items inserted, or being inserted, and not begun
          ibef, obef,     \* item -> the items surely queued in front of it
          ipend, opend,   \* those of iq and oq whose insertion has not returned
          it, ot,         \* thread -> [s: state, d: item]
          got,            \* items in the output queue since before zt_threadpool_get_oput was called
          sig             \* bytes for the readers of the two pipes
tvars == <<ni, no, fin, phase, iq, oq, ibef, obef, ipend, opend, it, ot, got, sig>>
Unborn == [s |-> "unborn", d |-> 0]
Idle == [s |-> "idle", d |-> 0]
Gone == [s |-> "gone", d |-> 0]
\* what the workers of the driver and the models make of an item; 0: nothing
IOut(d) == IF d % 3 = 0 THEN 0 ELSE d + 1000
OOut(x) == IF x % 2 = 0 THEN 0 ELSE x + 5000
\* a thread that is between items may have taken one
Free(f, t) == {u \in DOMAIN f : u # t /\ f[u].s = "idle"}
\* the result an idle input thread returned last may still be on its way to the output queue
Coming == {it[t].d : t \in {u \in DOMAIN it : it[u].s = "idle"}} \ {0}
\* it gets there before the thread does anything else
Land(t) == it[t].d

Without(f, d) == [x \in DOMAIN f \ {d} |-> f[x]]
With(f, d, S) == [x \in DOMAIN f \cup {d} |-> IF x = d THEN S ELSE f[x]]

Create(i, o, f) == /\ ni' = i /\ no' = o /\ fin' = f /\ phase' = "new" /\ iq' = {} /\ oq' = {} /\ ibef' = <<>> /\ obef' = <<>>
                   /\ ipend' = {} /\ opend' = {} /\ it' = [t \in 1..i |-> Unborn] /\ ot' = [t \in 1..o |-> Unborn]
                   /\ got' = {} /\ sig' = <<0, 0>>
Start == phase = "new" /\ phase' = "run" /\ UNCHANGED <<ni, no, fin, iq, oq, ibef, obef, ipend, opend, it, ot, got, sig>>
InsB(d) == /\ phase \in {"new", "run"} /\ d \notin iq
           /\ iq' = iq \cup {d} /\ ibef' = With(ibef, d, iq \ ipend) /\ ipend' = ipend \cup {d} /\ sig' = [sig EXCEPT ![1] = @ + 1]
           /\ UNCHANGED <<ni, no, fin, phase, oq, obef, opend, it, ot, got>>
InsE(d) == d \in ipend /\ ipend' = ipend \ {d} /\ UNCHANGED <<ni, no, fin, phase, iq, oq, ibef, obef, opend, it, ot, got, sig>>
OInsB(d) == /\ phase \in {"new", "run"} /\ d \notin oq
            /\ oq' = oq \cup {d} /\ obef' = With(obef, d, oq \ (opend \cup Coming)) /\ opend' = opend \cup {d} /\ sig' = [sig EXCEPT ![2] = @ + 1]
            /\ UNCHANGED <<ni, no, fin, phase, iq, ibef, ipend, it, ot, got>>
OInsE(d) == d \in opend /\ opend' = opend \ {d} /\ UNCHANGED <<ni, no, fin, phase, iq, oq, ibef, obef, ipend, it, ot, got, sig>>
\* the thread's init callback
Birth(k, t) == /\ phase \in {"run", "kill"}
               /\ IF k = "i" THEN it[t].s = "unborn" /\ it' = [it EXCEPT ![t] = Idle] /\ UNCHANGED ot
                  ELSE ot[t].s = "unborn" /\ ot' = [ot EXCEPT ![t] = Idle] /\ UNCHANGED it
               /\ UNCHANGED <<ni, no, fin, phase, iq, oq, ibef, obef, ipend, opend, got, sig>>
\* worker t begins with d: only other free threads can hold the items in front of it
IWorkOk(t, d) == it[t].s = "idle" /\ d \in iq /\ Cardinality(ibef[d] \cap iq) <= Cardinality(Free(it, t))
IWork(t, d) == /\ IWorkOk(t, d) /\ iq' = iq \ {d} /\ ibef' = Without(ibef, d) /\ it' = [it EXCEPT ![t] = [s |-> "work", d |-> d]]
               /\ UNCHANGED <<ni, no, fin, phase, oq, obef, ipend, opend, ot, got, sig>>
IDone(t, x) == /\ it[t].s = "work" /\ x = IOut(it[t].d)
               /\ it' = [it EXCEPT ![t] = [s |-> "idle", d |-> x]]
               /\ IF x = 0 THEN UNCHANGED <<oq, obef, sig>>
                  ELSE oq' = oq \cup {x} /\ obef' = With(obef, x, oq \ (opend \cup Coming)) /\ sig' = [sig EXCEPT ![2] = @ + 1]
               /\ UNCHANGED <<ni, no, fin, phase, iq, ibef, ipend, opend, ot, got>>
OWorkOk(t, d) == ot[t].s = "idle" /\ d \in oq /\ Cardinality(obef[d] \cap oq) <= Cardinality(Free(ot, t))
OWork(t, d) == /\ OWorkOk(t, d) /\ oq' = oq \ {d} /\ obef' = Without(obef, d) /\ ot' = [ot EXCEPT ![t] = [s |-> "work", d |-> d]]
               /\ UNCHANGED <<ni, no, fin, phase, iq, ibef, ipend, opend, it, got, sig>>
ODone(t, x) == /\ ot[t].s = "work" /\ x = OOut(ot[t].d)
               /\ ot' = [ot EXCEPT ![t] = IF x # 0 /\ fin THEN [s |-> "final", d |-> x] ELSE Idle]
               /\ UNCHANGED <<ni, no, fin, phase, iq, oq, ibef, obef, ipend, opend, it, got, sig>>
Final(t, x) == /\ ot[t] = [s |-> "final", d |-> x] /\ ot' = [ot EXCEPT ![t] = Idle]
               /\ UNCHANGED <<ni, no, fin, phase, iq, oq, ibef, obef, ipend, opend, it, got, sig>>
\* threads end when they are to be killed and what is left is in the hands of others; output threads outlive the input threads
IExitOk(t) == it[t].s = "idle" /\ phase = "kill" /\ Cardinality(iq) <= Cardinality(Free(it, t))
IExit(t) == /\ IExitOk(t) /\ it' = [it EXCEPT ![t] = Gone]
            /\ UNCHANGED <<ni, no, fin, phase, iq, oq, ibef, obef, ipend, opend, ot, got, sig>>
OExitOk(t) == /\ ot[t].s = "idle" /\ phase = "kill" /\ (\A u \in 1..ni : it[u].s = "gone") /\ Cardinality(oq) <= Cardinality(Free(ot, t))
OExit(t) == /\ OExitOk(t) /\ ot' = [ot EXCEPT ![t] = Gone]
            /\ UNCHANGED <<ni, no, fin, phase, iq, oq, ibef, obef, ipend, opend, it, got, sig>>
\* zt_threadpool_get_oput, by one thread, for pools without output threads
GetB == no = 0 /\ got' = oq \ (opend \cup Coming) /\ UNCHANGED <<ni, no, fin, phase, iq, oq, ibef, obef, ipend, opend, it, ot, sig>>
GetE(x) == /\ IF x = 0 THEN got \cap oq = {} /\ UNCHANGED <<oq, obef>>
              ELSE x \in oq /\ obef[x] \cap oq = {} /\ oq' = oq \ {x} /\ obef' = Without(obef, x)
           /\ got' = {} /\ UNCHANGED <<ni, no, fin, phase, iq, ibef, ipend, opend, it, ot, sig>>
\* nobody can go on but those in a callback that takes long: nothing is left for a thread that waits
SettledOk == /\ phase = "run" /\ ipend = {} /\ opend = {}
             /\ (\A t \in 1..ni : it[t].s \in {"idle", "work"}) /\ ((\E t \in 1..ni : it[t].s = "idle") => iq = {})
             /\ (\A t \in 1..no : ot[t].s \in {"idle", "work"}) /\ ((\E t \in 1..no : ot[t].s = "idle") => oq = {})
Settled == SettledOk /\ UNCHANGED tvars
KillB == phase = "run" /\ ipend = {} /\ opend = {} /\ phase' = "kill" /\ UNCHANGED <<ni, no, fin, iq, oq, ibef, obef, ipend, opend, it, ot, got, sig>>
KillEOk == /\ phase = "kill" /\ \A t \in 1..ni : it[t].s = "gone"
           /\ \A t \in 1..no : ot[t].s = "gone"
KillE == /\ KillEOk /\ phase' = "dead" /\ sig' = <<sig[1] + 1, sig[2] + 1>>
         /\ UNCHANGED <<ni, no, fin, iq, oq, ibef, obef, ipend, opend, it, ot, got>>
\* the driver reads everything there is in the pipes (-1: no pipe)
Pipes(a, b) == a \in {-1, sig[1]} /\ b \in {-1, sig[2]} /\ UNCHANGED tvars
\* what the user gets
AllDone == phase = "dead" => (ni > 0 => iq = {}) /\ (no > 0 => oq = {})
=============================================================================
