------------------------------- MODULE EzPool -------------------------------
(* zt_ez_mempool: a forest of pools that own chunks; destroying a pool destroys everything below it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxPools, MaxChunks
VARIABLES parent, \* live pool -> its parent, 0 for a root
          own,    \* live chunk -> the pool that owns it
          n,      \* chunks made so far
          out, act
vars == <<parent, own, n, out, act>>
Pools == DOMAIN parent
MinNot(S) == CHOOSE i \in 1..(Cardinality(S) + 1) : i \notin S /\ \A j \in 1..(i - 1) : j \in S
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
RECURSIVE Below(_)
Below(S) == LET T == S \cup {p \in Pools : parent[p] \in S} IN IF T = S THEN S ELSE Below(T)
Make(p) == /\ p = 0 \/ p \in Pools
           /\ act' = <<"init", p>> /\ out' = MinNot(Pools) /\ parent' = With(parent, out', p) /\ UNCHANGED <<own, n>>
New(op, p, sz, cb) == /\ p \in Pools /\ act' = <<op, p, sz, cb>> /\ out' = n + 1 /\ n' = n + 1
                      /\ own' = With(own, n + 1, p) /\ UNCHANGED parent
Alloc(p, sz, cb) == New("alloc", p, sz, cb)
Strdup(p, sz) == New("strdup", p, sz, 0)
Add(p, sz, cb) == IF sz <= 0     \* no buffer, or an empty one
                  THEN p \in Pools /\ act' = <<"add", p, sz, cb>> /\ out' = -1 /\ UNCHANGED <<parent, own, n>>
                  ELSE New("add", p, sz, cb)
Dead(p) == {c \in DOMAIN own : own[c] \in Below({p})}
Destroy(p) == /\ p \in Pools /\ act' = <<"destroy", p>> /\ out' = 0
              /\ parent' = [q \in Pools \ Below({p}) |-> parent[q]]
              /\ own' = [c \in DOMAIN own \ Dead(p) |-> own[c]] /\ UNCHANGED n
Init == parent = <<>> /\ own = <<>> /\ n = 0 /\ out = 0 /\ act = <<"init">>
Next == \/ \E p \in Pools \cup {0} : Cardinality(Pools) < MaxPools /\ Make(p)
        \/ \E p \in Pools : \/ n < MaxChunks /\ (\E cb \in {0, 1} : Alloc(p, 8, cb)) 
                            \/ n < MaxChunks /\ Strdup(p, 0)
                            \/ \E sz \in {-1, 0, 8} : n < MaxChunks /\ Add(p, sz, 1)
                            \/ Destroy(p)
Spec == Init /\ [][Next]_vars
View == <<parent, own, n>>
Owned == \A c \in DOMAIN own : own[c] \in Pools
Rooted == \A p \in Pools : parent[p] = 0 \/ parent[p] \in Pools
OnlyDestroyFrees == [][DOMAIN own \subseteq DOMAIN own' \/ act'[1] = "destroy"]_vars
SparesOthers == [][act'[1] = "destroy" => \A q \in Pools : q \notin Below({act'[2]}) =>
                     /\ q \in DOMAIN parent' /\ \A c \in DOMAIN own : own[c] = q => c \in DOMAIN own']_vars
Emit == PrintT("@T" \o ToJson([f |-> ToString(View), a |-> IF act'[1] = "destroy" THEN <<"destroy", act'[2], Below({act'[2]})>> ELSE act',
                              t |-> ToString(View'), i |-> TLCGet("level") = 1]))
=============================================================================
