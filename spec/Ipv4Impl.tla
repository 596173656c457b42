------------------------------ MODULE Ipv4Impl ------------------------------
(* How the table searches: one hash of the masked address per prefix length, the lengths in the order they came
   first, newest entry of a bucket first.  Every search answers as Ipv4 allows.                                 *)
EXTENDS Ipv4
CONSTANTS SZ
VARIABLES lens, bk, any
ivars == <<vars, lens, bk, any>>
RECURSIVE Val(_), And(_, _)
Val(b) == IF b = <<>> THEN 0 ELSE 2 * Val(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
And(x, y) == IF x = 0 \/ y = 0 THEN 0 ELSE 2 * And(x \div 2, y \div 2) + (x % 2) * (y % 2)
Pad(p) == [i \in 1..W |-> IF i <= Len(p) THEN p[i] ELSE 0]
Key(p) == And(Val(Pad(p)), SZ - 1)
IInit == Init /\ lens = <<>> /\ bk = [k \in 1..W |-> [h \in 0..SZ - 1 |-> <<>>]] /\ any = 0
In(k) == \E i \in 1..Len(lens) : lens[i] = k
IAdd(p) == /\ Len(tb[1].m) < MaxNet /\ tb[1].up
           /\ IF any # 0 THEN out' = any /\ UNCHANGED <<tb, n, lens, bk, any>>
              ELSE /\ out' = n + 1 /\ Put(1, p)
                   /\ IF p = <<>> THEN any' = n + 1 /\ UNCHANGED <<lens, bk>>
                      ELSE /\ bk' = [bk EXCEPT ![Len(p)][Key(p)] = <<<<n + 1, p>>>> \o @] /\ UNCHANGED any
                           /\ lens' = IF In(Len(p)) THEN lens ELSE Append(lens, Len(p))
           /\ act' = <<"add", 1, p>>
RECURSIVE Walk(_, _), Find(_, _)
Walk(b, q) == IF b = <<>> THEN 0 ELSE IF Covers(b[1][2], q) THEN b[1][1] ELSE Walk(Tail(b), q)
Find(i, q) == IF i > Len(lens) THEN 0
              ELSE LET k == lens[i]  w == Walk(bk[k][And(Val(SubSeq(Pad(q), 1, k) \o [j \in 1..W - k |-> 0]), SZ - 1)], q)
                   IN IF w # 0 THEN w ELSE Find(i + 1, q)
ISearch(q) == /\ tb[1].up /\ act' = <<"search", 1, q>> /\ out' = (IF any # 0 THEN any ELSE Find(1, q)) /\ UNCHANGED <<tb, n, lens, bk, any>>
IUp == InitT(1) /\ UNCHANGED <<lens, bk, any>>
INext == IUp \/ \E p \in Prefixes : IAdd(p) \/ ISearch(p)
ISpec == IInit /\ [][INext]_ivars
IView == <<Norm, lens, bk, any>>
Refines == Spec
=============================================================================
