------------------------------ MODULE PThreads ------------------------------
(* Threads, locks and conditions as zt_threads gives them on top of pthreads, seen at moments when every thread either waits
   for its next command or cannot go on.  out: <<result of the command or PENDING, {<<thread, result>>: who else came back}>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, Locks, Conds, MVals, PENDING
VARIABLES own,          \* lock -> thread or 0
          st,           \* thread -> what it is at
          det,          \* detached threads
          act, out
vars == <<own, st, det, act, out>>
None == <<"none">>  Idle == <<"idle">>
Canceled == -1
Wants(s, t, m) == (s[t][1] = "lock" \/ s[t][1] = "relock") /\ s[t][2] = m
\* who gets the free locks, and which joins are over: the threads that come back
Winners(o, s) == {w \in [Locks -> Threads \cup {0}] :
                    \A m \in Locks : LET W == {t \in Threads : Wants(s, t, m)} IN IF o[m] = 0 /\ W # {} THEN w[m] \in W ELSE w[m] = 0}
Joined(s) == {t \in Threads : s[t][1] = "join" /\ s[s[t][2]][1] = "ended"}
Result(s, t) == IF s[t][1] = "join" THEN s[s[t][2]][2] ELSE 0
\* after t's command, whose result is r or pending
Settle(t, r, o, s) ==
    \E w \in Winners(o, s) :
        LET back == {w[m] : m \in Locks} \ {0}
            over == Joined(s)
            all == back \cup over IN
        /\ own' = [m \in Locks |-> IF w[m] # 0 THEN w[m] ELSE o[m]]
        /\ st' = [x \in Threads |-> IF x \in all THEN Idle ELSE IF \E u \in over : s[u][2] = x THEN None ELSE s[x]]
        /\ out' = <<IF t \in all THEN Result(s, t) ELSE r, {<<x, Result(s, x)>> : x \in all \ {t}}>>
Start(u, t) == /\ st[u] = Idle /\ st[t] = None /\ act' = <<"start", u, t>> /\ det' = det \ {t}
               /\ Settle(u, 0, own, [st EXCEPT ![t] = Idle])
Lock(t, m) == /\ st[t] = Idle /\ own[m] # t /\ act' = <<"lock", t, m>> /\ det' = det
              /\ Settle(t, PENDING, own, [st EXCEPT ![t] = <<"lock", m>>])
TryLock(t, m) == /\ st[t] = Idle /\ act' = <<"try", t, m>> /\ det' = det
                 /\ IF own[m] = 0 THEN Settle(t, 0, [own EXCEPT ![m] = t], st) ELSE Settle(t, 1, own, st)
Unlock(t, m) == st[t] = Idle /\ own[m] = t /\ act' = <<"unlock", t, m>> /\ det' = det /\ Settle(t, 0, [own EXCEPT ![m] = 0], st)
\* everyone who waits for a condition does so with the same lock
Free(c, m) == \A x \in Threads : st[x][1] = "wait" /\ st[x][2] = c => st[x][3] = m
Wait(t, c, m, long) == /\ st[t] = Idle /\ own[m] = t /\ Free(c, m) /\ act' = <<"wait", t, c, m, long>> /\ det' = det
                       /\ Settle(t, PENDING, [own EXCEPT ![m] = 0], [st EXCEPT ![t] = <<"wait", c, m>>])
\* a wait that ends by its limit, nobody else after the lock: the lock is held again
TimedOut(t, c, m) == /\ st[t] = Idle /\ own[m] = t /\ Free(c, m) /\ act' = <<"timed", t, c, m>> /\ det' = det
                     /\ ~\E x \in Threads : Wants(st, x, m)
                     /\ UNCHANGED <<own, st>> /\ out' = <<1, {}>>
Waiters(c) == {x \in Threads : st[x][1] = "wait" /\ st[x][2] = c}
Signal(t, c, all) == /\ st[t] = Idle /\ act' = <<"signal", t, c, all>> /\ det' = det
                     /\ \E S \in SUBSET Waiters(c) :
                          /\ IF all = 1 THEN S = Waiters(c) ELSE Waiters(c) # {} => S # {}
                          /\ Settle(t, 0, own, [x \in Threads |-> IF x \in S THEN <<"relock", st[x][3]>> ELSE st[x]])
\* a thread ends by returning (0) or by zt_threads_end (1); the last one stays
Holds(t) == \E m \in Locks : own[m] = t
End(t, v, how) == /\ st[t] = Idle /\ ~Holds(t) /\ act' = <<"end", t, v, how>> /\ det' = det
                  /\ \E x \in Threads \ {t} : st[x] = Idle \/ st[x] = <<"join", t>>
                  /\ Settle(t, 0, own, [st EXCEPT ![t] = IF t \in det THEN None ELSE <<"ended", v>>])
Kill(u, t) == /\ u # t /\ st[u] = Idle /\ st[t] = Idle /\ ~Holds(t) /\ act' = <<"kill", u, t>> /\ det' = det
              /\ Settle(u, 0, own, [st EXCEPT ![t] = IF t \in det THEN None ELSE <<"ended", Canceled>>])
Join(u, t) == /\ u # t /\ st[u] = Idle /\ t \notin det /\ st[t] # None /\ (\A x \in Threads : st[x] # <<"join", t>>) /\ act' = <<"join", u, t>> /\ det' = det
              /\ st[t][1] # "join"
              /\ Settle(u, PENDING, own, [st EXCEPT ![u] = <<"join", t>>])
Detach(u, t) == /\ st[u] = Idle /\ t \notin det /\ st[t] # None /\ st[t][1] # "ended" /\ (\A x \in Threads : st[x] # <<"join", t>>)
                /\ act' = <<"detach", u, t>> /\ det' = det \cup {t} /\ Settle(u, 0, own, st)
\* every thread has a number of its own
Id(t) == st[t] = Idle /\ act' = <<"id", t>> /\ out' = <<1, {}>> /\ UNCHANGED <<own, st, det>>
First == CHOOSE t \in Threads : \A x \in Threads : t <= x
Init == own = [m \in Locks |-> 0] /\ st = [t \in Threads |-> IF t = First THEN Idle ELSE None] /\ det = {} /\ act = <<"begin">> /\ out = <<0, {}>>
\* ------------------------------------------------------------------ model
Next == \E t \in Threads :
          \/ Id(t)
          \/ \E m \in Locks : Lock(t, m) \/ TryLock(t, m) \/ Unlock(t, m) \/ (\E c \in Conds : (\E g \in {0, 1} : Wait(t, c, m, g)) \/ TimedOut(t, c, m))
          \/ \E c \in Conds, a \in {0, 1} : Signal(t, c, a)
          \/ \E v \in MVals, h \in {0, 1} : End(t, v, h)
          \/ \E u \in Threads : Start(u, t) \/ Kill(u, t) \/ Join(u, t) \/ Detach(u, t)
Spec == Init /\ [][Next]_vars
View == <<own, st, det>>
Quiet == /\ \A t \in Threads, m \in Locks : Wants(st, t, m) => own[m] \notin {0, t}
         /\ \A t \in Threads : st[t][1] = "join" => st[st[t][2]] # None /\ st[st[t][2]][1] # "ended"
Holder == \A m \in Locks : own[m] = 0 \/ st[own[m]] # None
\* a lock goes from one holder to another only by being given back
Handed == [][\A m \in Locks : own[m] # 0 /\ own'[m] # own[m] => act'[1] \in {"unlock", "wait"} /\ act'[2] = own[m]]_vars
Woken == [][act'[1] = "signal" /\ act'[4] = 1 => ~\E t \in Threads : st'[t][1] = "wait" /\ st'[t][2] = act'[3]]_vars
Emit == PrintT("@T" \o ToJson([f |-> ToString(<<own, st, det>>), a |-> act', t |-> ToString(<<own', st', det'>>), i |-> act[1] = "begin"]))
==============================================================================
