------------------------------- MODULE Table -------------------------------
(* Hash tables (zt_table): a table is a finite map from keys to values; with
   ZT_TABLE_ALLOW_DUP_KEYS a key carries a stack of values, newest first.
   Bucket count, hash function and collisions are invisible here: whatever
   they are, every call answers exactly as this map does.                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Vals, MaxDup, Dups      \* Dups: the set of <<dup1,dup2>> flag pairs to start from
VARIABLES tab,    \* [1..2 -> [present keys -> non-empty Seq(value)]]
          dup,    \* [1..2 -> BOOLEAN]   duplicate keys allowed
          out,    \* result of the last call
          act     \* the last call
vars == <<tab, dup, out, act>>

Empty == [k \in {} |-> <<>>]
NONE == 0

Has(t, k) == k \in DOMAIN tab[t]
Put(f, k, s) == IF s = <<>> THEN [x \in DOMAIN f \ {k} |-> f[x]]
                ELSE [x \in DOMAIN f \cup {k} |-> IF x = k THEN s ELSE f[x]]
Push(f, k, v) == Put(f, k, <<v>> \o (IF k \in DOMAIN f THEN f[k] ELSE <<>>))

\* ---- the calls ----
Set(t, k, v) ==
    /\ act' = <<"set", t, k, v>>
    /\ IF Has(t, k) /\ ~dup[t]
       THEN out' = 1 /\ UNCHANGED tab
       ELSE out' = 0 /\ tab' = [tab EXCEPT ![t] = Push(@, k, v)]
    /\ UNCHANGED dup

\* many keys at once, one call each, out their answers: V(k) stored under each, the value of each, each removed
V(k) == k + 7
Fill(t, x, y) ==
    /\ act' = <<"fill", t, x, y>>
    /\ LET f == tab[t] D == DOMAIN f d == dup[t] IN
       /\ out' = [i \in 1..(y - x + 1) |-> IF ~d /\ (x + i - 1) \in D THEN 1 ELSE 0]
       /\ tab' = [tab EXCEPT ![t] = [k \in D \cup (x..y) |-> IF k \notin D THEN <<V(k)>> ELSE IF d /\ k \in x..y THEN <<V(k)>> \o f[k] ELSE f[k]]]
    /\ UNCHANGED dup
Answers(t, x, y) == LET f == tab[t] D == DOMAIN f IN [i \in 1..(y - x + 1) |-> IF (x + i - 1) \in D THEN Head(f[x + i - 1]) ELSE NONE]
Find(t, x, y) == act' = <<"find", t, x, y>> /\ out' = Answers(t, x, y) /\ UNCHANGED <<tab, dup>>
Wipe(t, x, y) ==
    /\ act' = <<"wipe", t, x, y>>
    /\ out' = Answers(t, x, y)
    /\ LET f == tab[t] IN
       tab' = [tab EXCEPT ![t] = [k \in {k \in DOMAIN f : k \notin x..y \/ Len(f[k]) > 1} |-> IF k \in x..y THEN Tail(f[k]) ELSE f[k]]]
    /\ UNCHANGED dup

Get(t, k) ==
    /\ act' = <<"get", t, k>>
    /\ out' = IF Has(t, k) THEN Head(tab[t][k]) ELSE NONE
    /\ UNCHANGED <<tab, dup>>

Del(t, k) ==
    /\ act' = <<"del", t, k>>
    /\ IF Has(t, k)
       THEN out' = Head(tab[t][k]) /\ tab' = [tab EXCEPT ![t] = Put(@, k, Tail(@[k]))]
       ELSE out' = NONE /\ UNCHANGED tab
    /\ UNCHANGED dup

\* iterate, the callback removing every visited entry whose key is in D (plain tables only)
EachDel(t, D) ==
    /\ ~dup[t]
    /\ act' = <<"eachdel", t, D>>
    /\ out' = Cardinality(DOMAIN tab[t])
    /\ tab' = [tab EXCEPT ![t] = [x \in DOMAIN @ \ D |-> @[x]]]
    /\ UNCHANGED dup

RECURSIVE SumLen(_, _)
SumLen(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Len(f[x]) + SumLen(f, S \ {x})
Size(t) == SumLen(tab[t], DOMAIN tab[t])

\* iterate, the callback stopping the walk with a non-zero result at its n-th call
EachStop(t, n) ==
    /\ act' = <<"eachstop", t, n>>
    /\ out' = IF n <= Size(t) THEN <<7, n>> ELSE <<0, Size(t)>>
    /\ UNCHANGED <<tab, dup>>

\* copy every association of table a into table b (a # b)
Perms(s) == {p \in [1..Len(s) -> 1..Len(s)] : {p[i] : i \in 1..Len(s)} = 1..Len(s)}
Copies(fa, fb, twice, ina, inb, k) ==     \* what key k may hold in b afterwards
    LET old == IF inb THEN fb[k] ELSE <<>> IN
    IF ~ina THEN {old}
    ELSE IF twice THEN {[i \in 1..Len(fa[k]) |-> fa[k][p[i]]] \o old : p \in Perms(fa[k])}
    ELSE IF old # <<>> THEN {old}
    ELSE {<<fa[k][i]>> : i \in 1..Len(fa[k])}
Copy(a, b) ==
    /\ act' = <<"copy", a, b>>
    /\ LET fa == tab[a] fb == tab[b] Da == DOMAIN fa Db == DOMAIN fb D == Da \cup Db twice == dup[b]
       IN /\ out' = IF Da = {} THEN 0 ELSE 1
          /\ IF \A k \in Da : Len(fa[k]) = 1
             THEN tab' = [tab EXCEPT ![b] = [k \in D |-> IF k \notin Da THEN fb[k] ELSE IF k \notin Db THEN fa[k] ELSE IF twice THEN fa[k] \o fb[k] ELSE fb[k]]]
             ELSE \* only a key with several values in a leaves a choice
                  LET C(k) == Copies(fa, fb, twice, k \in Da, k \in Db, k)
                      Multi == {k \in Da : Len(fa[k]) > 1 /\ Cardinality(C(k)) > 1} IN
                  \E ch \in [Multi -> UNION {C(k) : k \in Multi} \cup {<<>>}] :
                    /\ \A k \in Multi : ch[k] \in C(k)
                    /\ tab' = [tab EXCEPT ![b] = [k \in D |-> IF k \in Multi THEN ch[k] ELSE CHOOSE s \in C(k) : TRUE]]
    /\ UNCHANGED dup

Init == /\ tab = <<Empty, Empty>> /\ dup \in Dups /\ out = NONE /\ act = <<"init">>

Small(t) == \A k \in DOMAIN tab[t] : Len(tab[t][k]) <= MaxDup

Next == \E t \in 1..2 :
          \/ \E k \in Keys : \/ \E v \in Vals : Set(t, k, v)
                             \/ Get(t, k) \/ Del(t, k)
          \/ \E D \in SUBSET Keys : EachDel(t, D)
          \/ \E n \in 1..3 : EachStop(t, n)
          \/ Copy(t, 3 - t)
          \/ \E k, m \in Keys : k < m /\ (Fill(t, k, m) \/ Find(t, k, m) \/ Wipe(t, k, m))
Spec == Init /\ [][Next]_vars

\* ---- properties ----
View == <<tab, dup>>
TypeOK == \A t \in 1..2 : /\ DOMAIN tab[t] \subseteq Keys
                          /\ \A k \in DOMAIN tab[t] : tab[t][k] # <<>>
UniqueUnlessDup == \A t \in 1..2 : ~dup[t] => \A k \in DOMAIN tab[t] : Len(tab[t][k]) = 1
\* an entry only disappears through a call that names it, and a call on one key leaves the others alone
OnlyNamed == [][\A t \in 1..2 : \A k \in DOMAIN tab[t] :
                   (tab[t][k] # (IF k \in DOMAIN tab'[t] THEN tab'[t][k] ELSE <<>>)) =>
                      \/ act'[1] \in {"set", "del"} /\ act'[2] = t /\ act'[3] = k
                      \/ act'[1] = "eachdel" /\ act'[2] = t /\ k \in act'[3]
                      \/ act'[1] \in {"fill", "wipe"} /\ act'[2] = t /\ k \in act'[3]..act'[4] /\ (act'[1] = "fill" => dup[t])
                      \/ act'[1] = "copy" /\ act'[3] = t /\ dup[t]]_vars
\* a get straight after an accepted set answers with the value just set
SetThenGet == [][act'[1] = "set" /\ out' = 0 => tab'[act'[2]][act'[3]][1] = act'[4]]_vars
DupsPlain == {<<FALSE, FALSE>>}
DupsDup == {<<TRUE, TRUE>>}
DupsAll == BOOLEAN \X BOOLEAN
OneCopied == \/ DOMAIN tab[2] = {} \/ Cardinality(DOMAIN tab[1]) + Cardinality(DOMAIN tab[2]) <= 3
BoundOne == Small(1) /\ Small(2) /\ Size(1) + Size(2) <= 3
Bound == Small(1) /\ Small(2)
Emit == PrintT("@T" \o ToJson([f |-> ToString(View), a |-> act', t |-> ToString(View'), i |-> TLCGet("level") = 1]))
=============================================================================
