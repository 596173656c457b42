-------------------------------- MODULE Pool --------------------------------
(* zt_mem pools: elements of one size carved out of pages.  A pool's pages are known once an element
   of theirs has been handed out; anon counts the others.  Pools 4..NP can make up a group.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NP, Confs, MaxElt, MaxPages, Sizes, MCPools, MCHeaps, MCShows
VARIABLES pool,   \* pool -> NONE or [req, epp, size, pol, pg : page id -> set of elements in use, anon, na, nf]
          group,  \* the pools of the group, {} when there is none
          cb,     \* what the release callback answers at the moment
          heaps,  \* heap -> its size, 0 when there is none
          failing,\* the next page allocation fails
          out, act
vars == <<pool, group, cb, heaps, failing, out, act>>
NONE == <<>>
On(p) == pool[p] # NONE
Pools == {p \in 1..NP : On(p)}
Ids(p) == DOMAIN pool[p].pg
Live(p) == UNION {pool[p].pg[g] : g \in Ids(p)}
AllLive == UNION {Live(p) : p \in Pools}
AllIds == UNION {Ids(p) : p \in Pools}
NPages(p) == Cardinality(Ids(p)) + pool[p].anon
Empty(p) == {g \in Ids(p) : pool[p].pg[g] = {}}
NFree(p) == Cardinality(Empty(p)) + pool[p].anon
HasRoom(p) == pool[p].anon > 0 \/ \E g \in Ids(p) : Cardinality(pool[p].pg[g]) < pool[p].epp
Drop(f, D) == [g \in DOMAIN f \ D |-> f[g]]
With(f, g, s) == [h \in DOMAIN f \cup {g} |-> IF h = g THEN s ELSE f[h]]
New(epp, size, pol, n, req) == [req |-> req, epp |-> epp, size |-> size, pol |-> pol, pg |-> <<>>, anon |-> n, na |-> n, nf |-> 0]
Same == UNCHANGED <<group, cb, heaps>>

\* a pool starts with at least one page, all of it free; req: how many elements were asked for
InitPool(p, size, pol, epp, n, req) ==
    /\ ~On(p) /\ p < 4 /\ epp >= 1 /\ n >= 1
    /\ act' = <<"init", p, size, pol>>
    /\ IF failing THEN out' = 0 /\ UNCHANGED pool ELSE out' = 1 /\ pool' = [pool EXCEPT ![p] = New(epp, size, pol, n, req)]
    /\ failing' = FALSE /\ Same
\* hand out element x, which lies in page g: a page with room, and a new page only when no page has room
Give(p, x, g) ==
    /\ x \notin AllLive
    /\ IF HasRoom(p)
       THEN IF g \in Ids(p)
            THEN /\ Cardinality(pool[p].pg[g]) < pool[p].epp
                 /\ pool' = [pool EXCEPT ![p].pg[g] = @ \cup {x}]
            ELSE /\ pool[p].anon > 0 /\ g \notin AllIds
                 /\ pool' = [pool EXCEPT ![p].pg = With(@, g, {x}), ![p].anon = @ - 1]
       ELSE /\ g \notin AllIds
            /\ pool' = [pool EXCEPT ![p].pg = With(@, g, {x}), ![p].na = @ + 1]
    /\ out' = x
Take(p, x, g) == IF failing /\ ~HasRoom(p) THEN out' = 0 /\ UNCHANGED pool ELSE Give(p, x, g)
Alloc(p, x, g) == On(p) /\ act' = <<"alloc", p>> /\ Take(p, x, g) /\ failing' = FALSE /\ Same
\* a page that becomes entirely free goes back to the system when the pool's policy says so
Release(x) ==
    LET p == CHOOSE p \in Pools : x \in Live(p)
        g == CHOOSE g \in Ids(p) : x \in pool[p].pg[g]
        last == pool[p].pg[g] = {x}
        go == last /\ (pool[p].pol = 1 \/ (pool[p].pol = 2 /\ cb # 0))
    IN /\ x \in AllLive
       /\ act' = <<"release", x>>
       /\ out' = 1
       /\ pool' = IF go THEN [pool EXCEPT ![p].pg = Drop(@, {g}), ![p].nf = @ + 1]
                  ELSE [pool EXCEPT ![p].pg[g] = @ \ {x}]
       /\ failing' = FALSE /\ Same
\* many at once: n elements handed out, where[g] those that lie in page g ...
Room(p) == LET q == pool[p] IN (q.anon + Cardinality(DOMAIN q.pg)) * q.epp - Cardinality(Live(p))
Takes(p, n, where) ==
    /\ On(p) /\ act' = <<"takes", p, n>> /\ ~failing /\ failing' = FALSE /\ Same
    /\ LET q == pool[p] old == DOMAIN q.pg fresh == DOMAIN where \ old
           room == Room(p)
           pages == IF n <= room THEN 0 ELSE (n - room + q.epp - 1) \div q.epp         \* those it has to take
           now == [g \in old \cup fresh |-> (IF g \in old THEN q.pg[g] ELSE {}) \cup (IF g \in DOMAIN where THEN where[g] ELSE {})]
           given == UNION {where[g] : g \in DOMAIN where} IN
       /\ fresh \cap AllIds = {} /\ given \cap AllLive = {} /\ Cardinality(given) = n
       /\ \A g \in DOMAIN now : Cardinality(now[g]) <= q.epp
       /\ Cardinality(fresh) \in pages..(pages + q.anon)
       \* a page is taken only when all are full: what is left over is the last page's
       /\ pages > 0 => Cardinality(fresh) = pages + q.anon /\ \E h \in fresh : \A g \in DOMAIN now \ {h} : Cardinality(now[g]) = q.epp
       /\ pool' = [pool EXCEPT ![p].pg = now, ![p].na = @ + pages, ![p].anon = @ - (Cardinality(fresh) - pages)]
       /\ out' = n
\* ... and every element numbered x..y given back
Emptied(p, D) == {g \in Ids(p) : pool[p].pg[g] # {} /\ pool[p].pg[g] \subseteq D}
Drops(x, y) ==
    /\ act' = <<"drops", x, y>> /\ failing' = FALSE /\ Same
    /\ LET D == x..y IN
       /\ out' = Cardinality(AllLive \cap D)
       /\ pool' = [p \in 1..NP |-> IF ~On(p) THEN pool[p] ELSE
                     LET q == pool[p] go == IF q.pol = 1 \/ (q.pol = 2 /\ cb # 0) THEN Emptied(p, D) ELSE {} IN
                     [q EXCEPT !.pg = [g \in DOMAIN q.pg \ go |-> q.pg[g] \ D], !.nf = @ + Cardinality(go)]]
Trim(p) == /\ On(p) /\ act' = <<"trim", p>> /\ out' = 0
           /\ pool' = [pool EXCEPT ![p].pg = Drop(@, Empty(p)), ![p].nf = @ + NFree(p), ![p].anon = 0]
           /\ failing' = FALSE /\ Same
\* destroying a pool that is in use fails; it may give back some of the free pages (known ones D, k others)
Doomed(p, D, k) == IF Live(p) = {} THEN NONE
                   ELSE [pool[p] EXCEPT !.pg = Drop(@, D), !.nf = @ + Cardinality(D) + k, !.anon = @ - k]
Destroy(p, D, k) ==
    /\ On(p) /\ p < 4 /\ act' = <<"destroy", p>>
    /\ D \subseteq Empty(p) /\ k \in 0..pool[p].anon
    /\ out' = IF Live(p) = {} THEN 0 ELSE -1
    /\ pool' = [pool EXCEPT ![p] = Doomed(p, D, k)]
    /\ failing' = FALSE /\ Same
Find(p) == act' = <<"find", p>> /\ out' = (IF p \in Pools THEN p ELSE 0)   \* a name beyond NP is nobody's
           /\ failing' = FALSE /\ UNCHANGED <<pool, group, cb, heaps>>
Cb(v) == act' = <<"cb", v>> /\ cb' = v /\ out' = 0 /\ failing' = FALSE /\ UNCHANGED <<pool, group, heaps>>
Fail == act' = <<"fail", 1>> /\ failing' = TRUE /\ out' = 0 /\ UNCHANGED <<pool, group, cb, heaps>>
\* what a display says of a pool: f asks for the free elements (1) and the pages (2) too
Card(p, f) == LET n == NPages(p) k == pool[p].epp u == Cardinality(Live(p)) IN
    <<p, k * n, k * n - u, NFree(p), n - NFree(p), n, k, pool[p].na, pool[p].nf, pool[p].size,
      IF f \in {1, 3} THEN k * n - u ELSE 0, IF f >= 2 THEN n ELSE 0, IF f >= 2 THEN k * n - u ELSE 0>>
Whom(k, p) == CASE k = 0 -> {p} [] k = 1 -> group [] k = 2 -> Pools
Show(k, p, f) == /\ CASE k = 0 -> On(p) [] k = 1 -> group # {} [] OTHER -> TRUE
                 /\ act' = <<"show", k, p, f>>
                 /\ out' = Cardinality(Whom(k, p)) /\ failing' = FALSE /\ UNCHANGED <<pool, group, cb, heaps>>
\* a heap is one named block of its own
Heap(h, n) == /\ heaps[h] = 0 /\ act' = <<"heap", h, n>> /\ out' = (IF failing THEN 0 ELSE 1) /\ failing' = FALSE
              /\ heaps' = (IF failing THEN heaps ELSE [heaps EXCEPT ![h] = n]) /\ UNCHANGED <<pool, group, cb>>
Unheap(h) == /\ heaps[h] # 0 /\ act' = <<"unheap", h>> /\ out' = 1 /\ failing' = FALSE
             /\ heaps' = [heaps EXCEPT ![h] = 0] /\ UNCHANGED <<pool, group, cb>>
\* ---- groups: pools 4, 5, ... with sizes s; the first m are named ----
GInit(s, m, epp, n) ==
    /\ group = {} /\ act' = <<"ginit", s[1], s[2], s[3], m>>
    /\ ~\E p \in 4..NP : On(p)
    /\ failing' = FALSE /\ UNCHANGED <<cb, heaps>>
    /\ IF failing THEN out' = 0 /\ UNCHANGED <<pool, group>>
       ELSE /\ out' = 1 /\ group' = 4..(3 + m)
            /\ pool' = [p \in 1..NP |-> IF p \in group' THEN New(epp[p - 3], s[p - 3], 1, n[p - 3], 2) ELSE pool[p]]
Fits(sz) == {p \in group : sz <= pool[p].size}
Best(sz) == CHOOSE p \in Fits(sz) : \A q \in Fits(sz) : pool[p].size < pool[q].size \/ (pool[p].size = pool[q].size /\ p <= q)
GAlloc(sz, x, g) ==
    /\ group # {} /\ act' = <<"galloc", sz>>
    /\ IF Fits(sz) = {} THEN out' = 0 /\ UNCHANGED pool ELSE Take(Best(sz), x, g)
    /\ failing' = FALSE /\ Same
GDestroy(left) ==       \* left: what remains of the pools that are in use
    /\ group # {} /\ act' = <<"gdestroy">>
    /\ out' = IF \E p \in group : Live(p) # {} THEN -1 ELSE 0
    /\ \A p \in group : left[p] \in {Doomed(p, D, k) : D \in SUBSET Empty(p), k \in 0..pool[p].anon}
    /\ pool' = [p \in 1..NP |-> IF p \in group THEN left[p] ELSE pool[p]]
    /\ group' = {} /\ failing' = FALSE /\ UNCHANGED <<cb, heaps>>

SomeShows == {<<0, 0>>, <<0, 3>>, <<1, 1>>, <<2, 2>>}
AllConfs == {<<3000, 0>>, <<3000, 1>>, <<3000, 2>>}
TwoGroups == {<<3000, 4000, 5000>>, <<5000, 3000, 4000>>}
Init == pool = [p \in 1..NP |-> NONE] /\ group = {} /\ cb = 1 /\ heaps = [h \in 1..2 |-> 0] /\ failing = FALSE /\ out = 0 /\ act = <<"init">>
MinNot(S) == CHOOSE i \in 1..(Cardinality(S) + 1) : i \notin S /\ \A j \in 1..(i - 1) : j \in S
NextElt == MinNot(AllLive)
Next ==
    \/ \E p \in MCPools : \/ \E c \in Confs : InitPool(p, c[1], c[2], 2, 1, 2)
                          \/ On(p) /\ \E g \in Ids(p) \cup {MinNot(AllIds)} : Alloc(p, NextElt, g)
                          \/ Trim(p)
                          \/ On(p) /\ \E D \in {{}, Empty(p)} : Destroy(p, D, 0)
                          \/ Find(p)
    \/ \E x \in AllLive : Release(x)
    \/ \E v \in {0, 1} : v # cb /\ Cb(v)
    \/ ~failing /\ Fail
GNext ==
    \/ \E s \in Sizes, m \in 1..3 : GInit(s, m, <<2, 2, 2>>, <<1, 1, 1>>)
    \/ \E p \in group \cup {0} : \E g \in (IF p = 0 THEN {} ELSE Ids(p)) \cup {MinNot(AllIds)} :
         \E sz \in UNION {{s[1], s[2], s[3]} : s \in Sizes} \cup {99999} : GAlloc(sz, NextElt, g)
    \/ GDestroy([p \in group |-> Doomed(p, {}, 0)])
    \/ \E x \in AllLive : Release(x)
    \/ ~failing /\ Fail
Others == \/ \E h \in MCHeaps : Heap(h, 40) \/ Unheap(h)
          \/ \E s \in MCShows, p \in MCPools : Show(s[1], IF s[1] = 0 THEN p ELSE 1, s[2])
Spec == Init /\ [][Next \/ Others]_vars
GSpec == Init /\ [][GNext \/ Others]_vars
Bound == Cardinality(AllLive) <= MaxElt /\ \A p \in Pools : NPages(p) <= MaxPages /\ pool[p].na <= MaxPages + 1
GBound == Cardinality(AllLive) <= MaxElt /\ \A p \in Pools : NPages(p) <= MaxPages
View == <<pool, group, cb, heaps, failing>>
\* the counters are for reporting: the replayed graph leaves them out
GView == <<[p \in 1..NP |-> IF On(p) THEN <<pool[p].size, pool[p].pol, pool[p].pg, pool[p].anon>> ELSE <<>>], group, cb, heaps, failing>>
\* ---- properties ----
Disjoint == \A p, q \in Pools : \A g \in Ids(p), h \in Ids(q) :
               <<p, g>> # <<q, h>> => pool[p].pg[g] \cap pool[q].pg[h] = {}
Fit == \A p \in Pools : \A g \in Ids(p) : Cardinality(pool[p].pg[g]) <= pool[p].epp
Balance == \A p \in Pools : pool[p].na - pool[p].nf = NPages(p)
NoPageLost == [][\A p \in Pools : pool'[p] # NONE =>
                   \A g \in Ids(p) : pool[p].pg[g] # {} /\ ~(g \in DOMAIN pool'[p].pg) => act'[1] = "release"]_vars
KeepElements == [][act'[1] # "release" => AllLive \subseteq UNION {UNION {pool'[p].pg[g] : g \in DOMAIN pool'[p].pg} :
                                                              p \in {p \in 1..NP : pool'[p] # NONE}}]_vars
NeverFree == [][\A p \in Pools : pool[p].pol = 0 /\ pool'[p] # NONE /\ act'[1] = "release" => NPages(p) = NPages(p)']_vars
\* looking and heaps leave every pool alone; what is shown adds up
Aside == [][act'[1] \in {"show", "heap", "unheap"} => pool' = pool]_vars
AddsUp == \A p \in Pools : LET c == Card(p, 3) IN c[2] = c[3] + Cardinality(Live(p)) /\ c[4] + c[5] = c[6] /\ c[8] - c[9] = c[6] /\ c[11] = c[13]
Emit == PrintT("@T" \o ToJson([f |-> ToString(GView), a |-> act', t |-> ToString(GView'), i |-> TLCGet("level") = 1]))
=============================================================================
