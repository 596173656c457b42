------------------------------- MODULE LList -------------------------------
(* zt_llist: singly linked lists of caller values, with sorting, merging, splitting and reversal.
   A value v sorts by its key v \div 10.                                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Vals, N, MaxLen
VARIABLES L, out, act
vars == <<L, out, act>>
NONE == 0
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rng(s) == {s[i] : i \in 1..Len(s)}
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Rng(s) : Count(s, x) = Count(t, x)
Key(v) == v \div 10
Sorted(s) == \A i \in 1..(Len(s) - 1) : Key(s[i]) <= Key(s[i + 1])
Put(i, s) == L' = [L EXCEPT ![i] = s]

Push(i, v) == act' = <<"push", i, v>> /\ out' = NONE /\ Put(i, <<v>> \o L[i])
Pop(i) == /\ act' = <<"pop", i>>
          /\ IF L[i] = <<>> THEN out' = NONE /\ UNCHANGED L ELSE out' = Head(L[i]) /\ Put(i, Tail(L[i]))
\* take the first pair of i and put it in front of j
Move(i, j) == /\ act' = <<"move", i, j>>
              /\ IF L[i] = <<>> THEN out' = NONE /\ UNCHANGED L
                 ELSE /\ out' = Head(L[i])
                      /\ L' = IF i = j THEN L ELSE [L EXCEPT ![i] = Tail(@), ![j] = <<Head(L[i])>> \o @]
Nth(i, k) == k < Len(L[i]) /\ act' = <<"nth", i, k>> /\ out' = L[i][k + 1] /\ UNCHANGED L
NthTail(i, k) == k < Len(L[i]) /\ act' = <<"nthtail", i, k>> /\ out' = SubSeq(L[i], k + 2, Len(L[i])) /\ UNCHANGED L
\* a reversed copy of i becomes list j (whose pairs the driver frees first)
Reverse(i, j) == i # j /\ act' = <<"reverse", i, j>> /\ out' = NONE /\ Put(j, Rev(L[i]))
NReverse(i) == act' = <<"nreverse", i>> /\ out' = NONE /\ Put(i, Rev(L[i]))
\* any sorted rearrangement of the same values
Sort(i, r) == SameBag(r, L[i]) /\ Sorted(r) /\ act' = <<"sort", i>> /\ out' = NONE /\ Put(i, r)
\* two sorted lists become one
Merge(i, j, r) == /\ i # j /\ Sorted(L[i]) /\ Sorted(L[j]) /\ SameBag(r, L[i] \o L[j]) /\ Sorted(r)
                  /\ act' = <<"merge", i, j>> /\ out' = NONE /\ L' = [L EXCEPT ![i] = r, ![j] = <<>>]
\* the back half of i goes to j, the front half, the longer one, stays
Split(i, j) == /\ i # j /\ Len(L[i]) >= 2 /\ L[j] = <<>>
               /\ LET h == (Len(L[i]) + 1) \div 2 IN
                  L' = [L EXCEPT ![i] = SubSeq(@, 1, h), ![j] = SubSeq(L[i], h + 1, Len(L[i]))]
               /\ act' = <<"split", i, j>> /\ out' = NONE
Free(i) == act' = <<"free", i>> /\ out' = NONE /\ Put(i, <<>>)

\* two sorted rearrangements that order equal keys in opposite ways
RECURSIVE InsB(_, _), InsA(_, _), SortB(_), SortA(_)
InsB(v, s) == IF s = <<>> \/ Key(v) <= Key(s[1]) THEN <<v>> \o s ELSE <<s[1]>> \o InsB(v, Tail(s))
InsA(v, s) == IF s = <<>> \/ Key(v) < Key(s[1]) THEN <<v>> \o s ELSE <<s[1]>> \o InsA(v, Tail(s))
SortB(s) == IF s = <<>> THEN <<>> ELSE InsB(s[1], SortB(Tail(s)))
SortA(s) == IF s = <<>> THEN <<>> ELSE InsA(s[1], SortA(Tail(s)))
SomeSorts(s) == {SortB(s), SortA(s)}
Init == L = [i \in 1..N |-> <<>>] /\ out = NONE /\ act = <<"init">>
Next == \E i, j \in 1..N :
          \/ Move(i, j) \/ Reverse(i, j) \/ Split(i, j)
          \/ \E r \in SomeSorts(L[i] \o L[j]) : Merge(i, j, r)
          \/ j = 1 /\ \/ \E v \in Vals : Push(i, v)
                      \/ Pop(i) \/ NReverse(i) \/ Free(i)
                      \/ \E k \in 0..2 : Nth(i, k) \/ NthTail(i, k)
                      \/ \E r \in SomeSorts(L[i]) : Sort(i, r)
Spec == Init /\ [][Next]_vars
View == L
RECURSIVE SumLen(_)
SumLen(i) == IF i = 0 THEN 0 ELSE Len(L[i]) + SumLen(i - 1)
Bound == SumLen(N) <= MaxLen
ReverseTwice == \A i \in 1..N : Rev(Rev(L[i])) = L[i]
Total(X, v) == Count(X[1], v) + Count(X[2], v)
KeepsValues == [][act'[1] \in {"sort", "merge", "split", "nreverse", "move"} =>
                      \A v \in Vals : Total(L', v) = Total(L, v)]_vars
SortSorts == [][act'[1] \in {"sort", "merge"} => Sorted(L'[act'[2]])]_vars
Emit == PrintT("@T" \o ToJson([f |-> ToString(View), a |-> act', t |-> ToString(View'), i |-> TLCGet("level") = 1]))
=============================================================================
