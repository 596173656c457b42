------------------------------ MODULE PtrArray ------------------------------
(* zt_ptr_array: arrays of caller pointers (numbers here, 0 is NULL) that may own what they point to.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NP, Vals, MaxLen
VARIABLES P,      \* P[i]: NONE or [on, cb: has a release callback, d: the pointers]
          rel,    \* what the last call released, in order
          out, act
vars == <<P, rel, out, act>>
NONE == [on |-> FALSE, cb |-> FALSE, d |-> <<>>]
Is == 1..NP
On(i) == P[i].on
D(i) == P[i].d
Cnt(s, v) == Cardinality({k \in 1..Len(s) : s[k] = v})
Rng(s) == {s[k] : k \in 1..Len(s)}
Rep(v, n) == [k \in 1..n |-> v]
Put(i, d) == P' = [P EXCEPT ![i].d = d]
Quiet == rel' = <<>>
New(i, cb) == /\ ~On(i) /\ act' = <<"new", i, cb>> /\ out' = 0 /\ Quiet
              /\ P' = [P EXCEPT ![i] = [on |-> TRUE, cb |-> cb, d |-> <<>>]]
\* NULL is not stored
Add(i, v) == /\ On(i) /\ act' = <<"add", i, v>> /\ out' = 0 /\ Quiet
             /\ IF v = 0 THEN UNCHANGED P ELSE Put(i, Append(D(i), v))
\* every occurrence goes, each handed to the callback; d is the new order of the others, which is left open
Del(i, v, d) == /\ On(i) /\ act' = <<"del", i, v>>
                /\ IF v = 0 \/ v \notin Rng(D(i)) THEN out' = -1 /\ UNCHANGED P /\ Quiet
                   ELSE /\ out' = 0
                        /\ Len(d) = Len(D(i)) - Cnt(D(i), v) /\ v \notin Rng(d)
                        /\ \A w \in Rng(D(i)) \ {v} : Cnt(d, w) = Cnt(D(i), w)
                        /\ Put(i, d)
                        /\ rel' = IF P[i].cb THEN Rep(v, Cnt(D(i), v)) ELSE <<>>
Append2(i, j) == On(i) /\ On(j) /\ act' = <<"cat", i, j>> /\ out' = 0 /\ Quiet /\ Put(i, D(i) \o D(j))
\* room for n more (0: a default amount); the contents stay, a negative n is refused
Resize(i, n) == On(i) /\ act' = <<"resize", i, n>> /\ out' = (IF n < 0 THEN -1 ELSE 0) /\ Quiet /\ UNCHANGED P
In(i, k) == 0 <= k /\ k < Len(D(i))
Move(i, k, m) == /\ On(i) /\ act' = <<"move", i, k, m>> /\ Quiet
                 /\ IF In(i, k) /\ In(i, m) THEN out' = 0 /\ Put(i, [D(i) EXCEPT ![m + 1] = D(i)[k + 1]])
                    ELSE out' = -1 /\ UNCHANGED P
\* -1 is the last element; outside the array there is nothing
Get(i, k) == /\ On(i) /\ act' = <<"get", i, k>> /\ Quiet /\ UNCHANGED P
             /\ LET q == IF k = -1 THEN Len(D(i)) - 1 ELSE k IN out' = IF In(i, q) THEN D(i)[q + 1] ELSE 0
CopyOut(i) == On(i) /\ act' = <<"copyout", i>> /\ out' = D(i) /\ Quiet /\ UNCHANGED P
\* with members = 1 every member is released once per occurrence, by the callback or with free
Free(i, members) == /\ On(i) /\ act' = <<"free", i, members>> /\ out' = 0 /\ P' = [P EXCEPT ![i] = NONE]
                    /\ rel' = IF members = 1 THEN D(i) ELSE <<>>
Perms(d, v) == LET r == SelectSeq(d, LAMBDA w : w # v) IN
               {r} \cup (IF r = <<>> THEN {} ELSE {<<r[Len(r)]>> \o SubSeq(r, 1, Len(r) - 1)})
Init == P = [i \in Is |-> NONE] /\ rel = <<>> /\ out = 0 /\ act = <<"init">>
Next == \E i \in Is :
          \/ \E cb \in BOOLEAN : New(i, cb)
          \/ \E v \in Vals \cup {0} : Add(i, v) \/ \E d \in Perms(D(i), v) : Del(i, v, d)
          \/ \E j \in Is : Append2(i, j)
          \/ \E n \in {-1, 0, 1} : Resize(i, n)
          \/ \E k, m \in -1..MaxLen : Move(i, k, m)
          \/ \E k \in -2..MaxLen : Get(i, k)
          \/ CopyOut(i)
          \/ \E m \in {0, 1} : Free(i, m)
Spec == Init /\ [][Next]_vars
View == P
Bound == \A i \in Is : Len(D(i)) <= MaxLen
NoNull == \A i \in Is : 0 \notin Rng(D(i))
\* nothing is released that was not stored, and only del and free release
RelStored == [][rel' # <<>> => act'[1] \in {"del", "free"} /\ Rng(rel') \subseteq Rng(D(act'[2]))]_vars
Emit == PrintT("@T" \o ToJson([f |-> ToString(View), a |-> act', t |-> ToString(View'), i |-> TLCGet("level") = 1]))
=============================================================================
