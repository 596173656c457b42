------------------------------- MODULE Lists -------------------------------
(* zt_elist, zt_stack, zt_queue: intrusive circular lists.  L[h] is the list of head h, front first.
   An element sits in at most one list; the driver frees what it takes out.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Elems, N
VARIABLES L, out, act
vars == <<L, out, act>>
NONE == 0
Rng(s) == {s[i] : i \in 1..Len(s)}
In == UNION {Rng(L[h]) : h \in 1..N}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Without(s, D) == SelectSeq(s, LAMBDA x : x \notin D)

Front(op, h, x) == x \notin In /\ act' = <<op, h, x>> /\ out' = NONE /\ L' = [L EXCEPT ![h] = <<x>> \o @]
Add(h, x) == Front("add", h, x)
Push(h, x) == Front("push", h, x)
Enqueue(h, x) == Front("enqueue", h, x)
AddTail(h, x) == x \notin In /\ act' = <<"addtail", h, x>> /\ out' = NONE /\ L' = [L EXCEPT ![h] = Append(@, x)]
Remove(h, x) == /\ x \in Rng(L[h]) /\ act' = <<"remove", h, x>> /\ out' = NONE
                /\ L' = [L EXCEPT ![h] = Without(@, {x})]
Pop(h) == /\ act' = <<"pop", h>>
          /\ IF L[h] = <<>> THEN out' = NONE /\ UNCHANGED L
             ELSE out' = Head(L[h]) /\ L' = [L EXCEPT ![h] = Tail(@)]
Dequeue(h) == /\ act' = <<"dequeue", h>>
              /\ IF L[h] = <<>> THEN out' = NONE /\ UNCHANGED L
                 ELSE out' = L[h][Len(L[h])] /\ L' = [L EXCEPT ![h] = SubSeq(@, 1, Len(@) - 1)]
SPeek(h) == L[h] # <<>> /\ act' = <<"speek", h>> /\ out' = Head(L[h]) /\ UNCHANGED L
QPeek(h) == L[h] # <<>> /\ act' = <<"qpeek", h>> /\ out' = L[h][Len(L[h])] /\ UNCHANGED L
Empty(h) == act' = <<"empty", h>> /\ out' = (IF L[h] = <<>> THEN 1 ELSE 0) /\ UNCHANGED L
\* splice list g in front of list h (g is reset by the caller afterwards)
Join(h, g) == /\ h # g /\ act' = <<"join", h, g>> /\ out' = NONE
              /\ L' = [L EXCEPT ![h] = L[g] \o L[h], ![g] = <<>>]
\* removal-safe iteration, the body removing the elements of D
EachDel(h, D) == /\ act' = <<"eachdel", h, D>> /\ out' = L[h] /\ L' = [L EXCEPT ![h] = Without(@, D)]

Init == L = [h \in 1..N |-> <<>>] /\ out = NONE /\ act = <<"init">>
Next == \E h \in 1..N :
          \/ \E x \in Elems : Add(h, x) \/ AddTail(h, x) \/ Push(h, x) \/ Enqueue(h, x) \/ Remove(h, x)
          \/ Pop(h) \/ Dequeue(h) \/ SPeek(h) \/ QPeek(h) \/ Empty(h)
          \/ \E g \in 1..N : Join(h, g)
          \/ \E D \in SUBSET Elems : EachDel(h, D)
Spec == Init /\ [][Next]_vars
View == L
NoDup == /\ \A h \in 1..N : Cardinality(Rng(L[h])) = Len(L[h])
         /\ \A h, g \in 1..N : h # g => Rng(L[h]) \cap Rng(L[g]) = {}
\* LIFO and FIFO
Lifo == [][act'[1] = "pop" /\ L[act'[2]] # <<>> => L[act'[2]] = <<out'>> \o L'[act'[2]]]_vars
Fifo == [][act'[1] = "dequeue" /\ L[act'[2]] # <<>> => L[act'[2]] = Append(L'[act'[2]], out')]_vars
Conserved == [][act'[1] \in {"join", "speek", "qpeek", "empty"} => In = In']_vars
Emit == PrintT("@T" \o ToJson([f |-> ToString(View), a |-> act', t |-> ToString(View'), i |-> TLCGet("level") = 1]))
=============================================================================
