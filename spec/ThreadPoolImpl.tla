----------------------------- MODULE ThreadPoolImpl -----------------------------
(* The algorithm of zt_threads.c, one action per lock, unlock, wait and callback, over NI input threads, NO output
   threads and a user who inserts Items and kills the pool.  Every visible step must be one ThreadPool allows (bad
   says that it was not), every schedule must end (no lost wakeup), and its schedules are replayed into the code.  *)
EXTENDS ThreadPool
CONSTANTS NI, NO, K,      \* items 1..K are inserted, of which the first Early before the start
          Early,
          Safe            \* kill as it should be; FALSE: as it was, without the locks and at once for both kinds
VARIABLES pc, itm,        \* thread -> where it is, what it has taken; threads: 0 the user, 1..NI input, NI+1..NI+NO output
          lk,             \* <<holder of the input lock, of the output lock>>, -1: free
          wt,             \* <<waiting for input, for output>>
          q,              \* <<input queue, output queue>>
          kl,             \* <<input threads are to end, output threads are to end>>
          n,              \* the user's next item
          bad, act
ivars == <<pc, itm, lk, wt, q, kl, n, bad, act>>
Th == 0..(NI + NO)
IsI(t) == t \in 1..NI
Q(t) == IF IsI(t) THEN 1 ELSE 2
O(t) == t - NI
Vis(ok, A) == IF ok THEN A /\ UNCHANGED bad ELSE bad' = TRUE /\ UNCHANGED tvars
Quiet == UNCHANGED <<bad, ni, no, fin, phase, iq, oq, ibef, obef, ipend, opend, it, ot, got, sig>>
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Init == /\ ni = NI /\ no = NO /\ fin = TRUE /\ phase = "new" /\ iq = {} /\ oq = {} /\ ibef = <<>> /\ obef = <<>> /\ ipend = {} /\ opend = {}
        /\ it = [t \in 1..NI |-> Unborn] /\ ot = [t \in 1..NO |-> Unborn] /\ got = {} /\ sig = <<0, 0>>
        /\ pc = [t \in Th |-> IF t = 0 THEN "next" ELSE "off"] /\ itm = [t \in Th |-> 0] /\ lk = <<-1, -1>> /\ wt = <<{}, {}>>
        /\ q = <<<<>>, <<>>>> /\ kl = <<FALSE, FALSE>> /\ n = 1 /\ bad = FALSE /\ act = <<"init">>
Acquire(t, k, p) == lk[k] = -1 /\ lk' = [lk EXCEPT ![k] = t] /\ Go(t, p)
Release(t, k) == lk' = [lk EXCEPT ![k] = -1]
Rest(t) == t
\* ------------------------------------------------------------------ worker threads
Born(t) == /\ pc[t] = "born" /\ Go(t, "lock") /\ UNCHANGED <<itm, lk, wt, q, kl, n>>
           /\ Vis(TRUE, Birth(IF IsI(t) THEN "i" ELSE "o", IF IsI(t) THEN t ELSE O(t)))
Lock(t) == pc[t] = "lock" /\ Acquire(t, Q(t), "test") /\ Quiet /\ UNCHANGED <<itm, wt, q, kl, n>>
Test(t) ==
    LET k == Q(t) IN
    /\ pc[t] = "test" /\ UNCHANGED <<kl, n>>
    /\ IF q[k] = <<>>
       THEN IF kl[k] THEN Release(t, k) /\ Go(t, "exit") /\ UNCHANGED <<itm, wt, q>> /\ Quiet
            ELSE Release(t, k) /\ wt' = [wt EXCEPT ![k] = @ \cup {t}] /\ Go(t, "wait") /\ UNCHANGED <<itm, q>> /\ Quiet
       ELSE /\ itm' = [itm EXCEPT ![t] = Head(q[k])] /\ q' = [q EXCEPT ![k] = Tail(@)] /\ Release(t, k) /\ Go(t, "work") /\ UNCHANGED wt /\ Quiet
Woken(t) == pc[t] = "wait" /\ t \notin wt[Q(t)] /\ Acquire(t, Q(t), "rel") /\ Quiet /\ UNCHANGED <<itm, wt, q, kl, n>>
Rel(t) == pc[t] = "rel" /\ Release(t, Q(t)) /\ Go(t, "lock") /\ Quiet /\ UNCHANGED <<itm, wt, q, kl, n>>
Work(t) == /\ pc[t] = "work" /\ Go(t, "done") /\ UNCHANGED <<itm, lk, wt, q, kl, n>>
           /\ IF IsI(t) THEN Vis(IWorkOk(t, itm[t]), IWork(t, itm[t])) ELSE Vis(OWorkOk(O(t), itm[t]), OWork(O(t), itm[t]))
Done(t) == /\ pc[t] = "done" /\ UNCHANGED <<lk, wt, q, kl, n>>
           /\ IF IsI(t) THEN /\ LET x == IOut(itm[t]) IN itm' = [itm EXCEPT ![t] = x] /\ Go(t, IF x = 0 THEN "lock" ELSE "olock") /\ Vis(TRUE, IDone(t, x))
              ELSE LET x == OOut(itm[t]) IN itm' = [itm EXCEPT ![t] = x] /\ Go(t, IF x = 0 THEN "lock" ELSE "final") /\ Vis(TRUE, ODone(O(t), x))
Fin(t) == pc[t] = "final" /\ Go(t, "lock") /\ Vis(TRUE, Final(O(t), itm[t])) /\ UNCHANGED <<itm, lk, wt, q, kl, n>>
OLock(t) == pc[t] = "olock" /\ Acquire(t, 2, "oput") /\ Quiet /\ UNCHANGED <<itm, wt, q, kl, n>>
\* append and signal: whom, when someone waits, is open
Put(t, k, d, p) == /\ q' = [q EXCEPT ![k] = Append(@, d)] /\ Release(t, k) /\ Go(t, p)
                   /\ IF wt[k] = {} THEN UNCHANGED wt ELSE \E u \in wt[k] : wt' = [wt EXCEPT ![k] = @ \ {u}]
OPut(t) == pc[t] = "oput" /\ Put(t, 2, itm[t], "lock") /\ Quiet /\ UNCHANGED <<itm, kl, n>>
Exit(t) == /\ pc[t] = "exit" /\ Go(t, "gone") /\ UNCHANGED <<itm, lk, wt, q, kl, n>>
           /\ IF IsI(t) THEN Vis(IExitOk(t), IExit(t)) ELSE Vis(OExitOk(O(t)), OExit(O(t)))
\* ------------------------------------------------------------------ the user
UNext == /\ pc[0] = "next" /\ UNCHANGED <<itm, lk, wt, q, kl, n>>
         /\ IF n = Early + 1 /\ phase = "new" THEN pc' = [t \in Th |-> IF t = 0 THEN "next" ELSE "born"] /\ Vis(TRUE, Start)
            ELSE IF n <= K THEN Go(0, "ilock") /\ Vis(TRUE, InsB(n))
            ELSE Go(0, IF Safe THEN "klock" ELSE "kset") /\ Vis(TRUE, KillB)
ULock == pc[0] = "ilock" /\ Acquire(0, 1, "iput") /\ Quiet /\ UNCHANGED <<itm, wt, q, kl, n>>
UPut == pc[0] = "iput" /\ Put(0, 1, n, "iret") /\ Quiet /\ UNCHANGED <<itm, kl, n>>
URet == pc[0] = "iret" /\ Go(0, "next") /\ n' = n + 1 /\ Vis(TRUE, InsE(n)) /\ UNCHANGED <<itm, lk, wt, q, kl>>
KLock(k, p) == Acquire(0, k, p) /\ Quiet /\ UNCHANGED <<itm, wt, q, kl, n>>
KSet(k, p) == kl' = [kl EXCEPT ![k] = TRUE] /\ wt' = [wt EXCEPT ![k] = {}] /\ Release(0, k) /\ Go(0, p) /\ Quiet /\ UNCHANGED <<itm, q, n>>
UKill == \/ pc[0] = "klock" /\ KLock(1, "ktell")
         \/ pc[0] = "ktell" /\ KSet(1, "kjoin")
         \/ pc[0] = "kjoin" /\ (\A t \in 1..NI : pc[t] = "gone") /\ KLock(2, "ktell2")
         \/ pc[0] = "ktell2" /\ KSet(2, "kjoin2")
         \/ pc[0] = "kjoin2" /\ (\A t \in 1..(NI + NO) : pc[t] = "gone") /\ Go(0, "end") /\ Vis(KillEOk, KillE) /\ UNCHANGED <<itm, lk, wt, q, kl, n>>
         \* the way it was
         \/ pc[0] = "kset" /\ kl' = <<TRUE, TRUE>> /\ Go(0, "kcast") /\ Quiet /\ UNCHANGED <<itm, lk, wt, q, n>>
         \/ pc[0] = "kcast" /\ wt' = <<{}, {}>> /\ Go(0, "kjoin2") /\ Quiet /\ UNCHANGED <<itm, lk, q, kl, n>>
User == UNext \/ ULock \/ UPut \/ URet \/ UKill
Thread(t) == Born(t) \/ Lock(t) \/ Test(t) \/ Woken(t) \/ Rel(t) \/ Work(t) \/ Done(t) \/ Fin(t) \/ OLock(t) \/ OPut(t) \/ Exit(t)
Step(t) == act' = <<"step", t>> /\ IF t = 0 THEN User ELSE Thread(t)
Next == \E t \in Th : Step(t)
Spec == Init /\ [][Next]_<<tvars, ivars>> /\ \A t \in Th : WF_<<tvars, ivars>>(Step(t))
Good == ~bad
\* nobody can do anything only when all is over
NoStuck == (\A t \in Th : ~ENABLED Step(t)) => pc[0] = "end"
\* when every thread of the pool sleeps there is nothing to do
NoneAsleep == phase = "run" /\ pc[0] = "next" /\ (\A t \in 1..(NI + NO) : pc[t] = "wait" /\ t \in wt[Q(t)]) => SettledOk
Ends == <>(phase = "dead")
View == <<tvars, pc, itm, lk, wt, q, kl, n, bad>>
GView == <<pc, itm, lk, wt, q, kl, n>>
Emit == PrintT("@T" \o ToJson([f |-> ToString(GView), a |-> act', t |-> ToString(GView'), i |-> TLCGet("level") = 1]))
=============================================================================
