------------------------------- MODULE Daemon -------------------------------
(* zt_daemonize, call by call: the caller forks a child, which leads a new session, closes what is open and forks the daemon.
   The system may refuse a call.  Any number of refusals; processes interleave in every way.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Faults,                \* subsets of the calls that may be refused
          Fds                    \* open descriptors, {0, 1, 2} among them or not
VARIABLES pc,       \* process -> where it is: "-" not there yet, ..., <<"gone", status>> or "on": the daemon goes on
          sess,     \* process -> its session
          fds,      \* process -> descriptor -> what it is open on
          dir, mask, refused, had
vars == <<pc, sess, fds, dir, mask, refused, had>>
P == 1
C == 2
D == 3
Procs == {P, C, D}
Put(f, k, v) == [f EXCEPT ![k] = v]
Gone(p, status) == pc' = Put(pc, p, "gone" \o ToString(status))
Is(p, at) == pc[p] = at
Init == /\ pc = [p \in Procs |-> IF p = P THEN "fork" ELSE "-"] /\ refused \in Faults /\ had \in SUBSET Fds
        /\ sess = [p \in Procs |-> 0] /\ fds = [p \in Procs |-> IF p = P THEN [k \in had |-> "old"] ELSE <<>>]
        /\ dir = [p \in Procs |-> "old"] /\ mask = [p \in Procs |-> "old"]
Same(p, q) == /\ sess' = Put(sess, q, sess[p]) /\ fds' = Put(fds, q, fds[p]) /\ dir' = Put(dir, q, dir[p]) /\ mask' = Put(mask, q, mask[p])
Keep == UNCHANGED <<sess, fds, dir, mask, refused, had>>
Fork1 == /\ Is(P, "fork")
         /\ IF "fork1" \in refused THEN Gone(P, 1) /\ Keep
            ELSE pc' = [pc EXCEPT ![P] = "wait", ![C] = "setsid"] /\ Same(P, C) /\ UNCHANGED <<refused, had>>
Wait == Is(P, "wait") /\ pc[C] \in {"gone0", "gone1"} /\ Gone(P, 0) /\ Keep
Setsid == Is(C, "setsid") /\ IF "setsid" \in refused THEN Gone(C, 1) /\ Keep
                             ELSE pc' = Put(pc, C, "limit") /\ sess' = Put(sess, C, C) /\ UNCHANGED <<fds, dir, mask, refused, had>>
Limit == Is(C, "limit") /\ Keep /\ IF "limit" \in refused THEN Gone(C, 1) ELSE pc' = Put(pc, C, "close")
Close == Is(C, "close") /\ fds' = Put(fds, C, <<>>) /\ pc' = Put(pc, C, "fork") /\ UNCHANGED <<sess, dir, mask, refused, had>>
Fork2 == Is(C, "fork") /\ IF "fork2" \in refused THEN Gone(C, 1) /\ Keep
                          ELSE pc' = [pc EXCEPT ![C] = "sleep", ![D] = "chdir"] /\ Same(C, D) /\ UNCHANGED <<refused, had>>
Sleep == Is(C, "sleep") /\ Gone(C, 0) /\ Keep
Chdir == Is(D, "chdir") /\ IF "chdir" \in refused THEN Gone(D, 1) /\ Keep
                           ELSE pc' = Put(pc, D, "umask") /\ dir' = Put(dir, D, "root") /\ UNCHANGED <<sess, fds, mask, refused, had>>
Umask == Is(D, "umask") /\ pc' = Put(pc, D, "open") /\ mask' = Put(mask, D, "asked") /\ UNCHANGED <<sess, fds, dir, refused, had>>
Lowest(f) == CHOOSE k \in 0..9 : k \notin DOMAIN f /\ \A j \in 0..9 : j < k => j \in DOMAIN f
Opened(f) == [k \in DOMAIN f \cup {Lowest(f)} |-> IF k = Lowest(f) THEN "null" ELSE f[k]]
Open(at, next) == Is(D, at) /\ pc' = Put(pc, D, next) /\ fds' = Put(fds, D, Opened(fds[D])) /\ UNCHANGED <<sess, dir, mask, refused, had>>
Next == Fork1 \/ Wait \/ Setsid \/ Limit \/ Close \/ Fork2 \/ Sleep \/ Chdir \/ Umask \/ Open("open", "dup") \/ Open("dup", "dup2") \/ Open("dup2", "on")
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ------------------------------------------------------------------ what users rely on; also asked of the real processes
\* how the caller's process ended, whether the daemon's process was there by then, and the daemons: <<result, new session, leads it, in the directory asked for, mask as asked, descriptors>>
Null == {<<0, "null">>, <<1, "null">>, <<2, "null">>}
Outcome(faults, caller, started, daemons) ==
    /\ caller # "on"                                                                  \* the caller's process always ends
    /\ faults = {} => caller = "gone0" /\ daemons = <<<<0, TRUE, FALSE, TRUE, TRUE, Null>>>>
    /\ caller = "gone0" /\ faults = {} => started                                      \* the caller ends when the daemon is on its own
    /\ faults # {} => daemons = <<>>
    /\ "fork1" \in faults => caller # "gone0"
Ended == \A p \in Procs : pc[p] \in {"-", "on", "gone0", "gone1"}
Daemons == IF pc[D] = "on" THEN <<<<0, sess[D] # sess[P], sess[D] = D, dir[D] = "root", mask[D] = "asked", {<<k, fds[D][k]>> : k \in DOMAIN fds[D]}>>>> ELSE <<>>
Kept == Ended => Outcome(refused, pc[P], pc[D] # "-", Daemons)
One == Cardinality({p \in Procs : pc[p] = "on"}) <= 1
After == pc[P] = "gone0" /\ refused = {} => pc[D] # "-"
Ends == <>Ended
AllFaults == SUBSET {"fork1", "setsid", "limit", "fork2", "chdir"}
=============================================================================
