----------------------------- MODULE TableImpl -----------------------------
(* How zt_table does it: an array of buckets, each a chain of nodes, new nodes at the head, a lookup
   walking the chain of the key's bucket.  TLC checks that this refines Table for every hash function. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Keys, Vals, NB, MaxNodes
VARIABLES h,       \* the hash function: Keys -> 0..NB-1 (any)
          bk,      \* [0..NB-1 -> Seq([k, v])]
          dupf, out, act
vars == <<h, bk, dupf, out, act>>
Pos(s, k) == IF \E i \in 1..Len(s) : s[i].k = k
             THEN CHOOSE i \in 1..Len(s) : s[i].k = k /\ \A j \in 1..(i-1) : s[j].k # k ELSE 0
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Set(k, v) == /\ act' = <<"set", 1, k, v>>
             /\ IF ~dupf /\ Pos(bk[h[k]], k) # 0 THEN out' = 1 /\ UNCHANGED bk
                ELSE out' = 0 /\ bk' = [bk EXCEPT ![h[k]] = <<[k |-> k, v |-> v]>> \o @]
             /\ UNCHANGED <<h, dupf>>
Get(k) == /\ act' = <<"get", 1, k>>
          /\ LET i == Pos(bk[h[k]], k) IN out' = IF i = 0 THEN 0 ELSE bk[h[k]][i].v
          /\ UNCHANGED <<h, bk, dupf>>
Del(k) == /\ act' = <<"del", 1, k>>
          /\ LET i == Pos(bk[h[k]], k) IN
             IF i = 0 THEN out' = 0 /\ UNCHANGED bk
             ELSE out' = bk[h[k]][i].v /\ bk' = [bk EXCEPT ![h[k]] = Drop(@, i)]
          /\ UNCHANGED <<h, dupf>>
Init == /\ h \in [Keys -> 0..(NB-1)] /\ bk = [b \in 0..(NB-1) |-> <<>>] /\ dupf \in BOOLEAN
        /\ out = 0 /\ act = <<"init">>
Next == \E k \in Keys : (\E v \in Vals : Set(k, v)) \/ Get(k) \/ Del(k)
Spec == Init /\ [][Next]_vars
View == <<h, bk, dupf>>
RECURSIVE Total(_)
Total(b) == IF b = NB THEN 0 ELSE Len(bk[b]) + Total(b + 1)
Bound == Total(0) <= MaxNodes
\* abstraction
Sel(k) == SelectSeq(bk[h[k]], LAMBDA n : n.k = k)
AbsTab == LET D == {k \in Keys : Pos(bk[h[k]], k) # 0} IN [k \in D |-> [i \in 1..Len(Sel(k)) |-> Sel(k)[i].v]]
T == INSTANCE Table WITH tab <- <<AbsTab, [k \in {} |-> <<>>]>>, dup <- <<dupf, FALSE>>,
                         MaxDup <- 2, Dups <- {<<TRUE, FALSE>>, <<FALSE, FALSE>>}
Refines == T!Spec
InOwnBucket == \A b \in 0..(NB-1) : \A i \in 1..Len(bk[b]) : h[bk[b][i].k] = b
=============================================================================
