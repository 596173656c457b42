------------------------------- MODULE Array -------------------------------
(* zt_array: growable arrays of fixed-size elements; an element is the sequence of its bytes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NA, Sizes, Bytes, MaxLen
VARIABLES A,      \* A[i]: NONE or [z: element size, d: sequence of elements]
          out, act
vars == <<A, out, act>>
NONE == [z |-> 0, d |-> <<>>]
Arrs == 1..NA
On(i) == A[i].z > 0
Zero(z) == [k \in 1..z |-> 0]
\* the first n elements, made up with zeros
Fit(d, n, z) == [k \in 1..n |-> IF k <= Len(d) THEN d[k] ELSE Zero(z)]
Put(i, d) == A' = [A EXCEPT ![i].d = d]
New(i, n, z) == /\ ~On(i) /\ act' = <<"new", i, n, z>> /\ out' = 0 /\ A' = [A EXCEPT ![i] = [z |-> z, d |-> Fit(<<>>, n, z)]]
\* an array with given contents, its own copy or the caller's block taken over
With(i, d, z, copy) == /\ ~On(i) /\ d # <<>> /\ act' = <<"with", i, d, z, copy>> /\ out' = 0
                       /\ A' = [A EXCEPT ![i] = [z |-> z, d |-> d]]
SetData(i, d, z, copy) == /\ On(i) /\ d # <<>> /\ act' = <<"setdata", i, d, z, copy>> /\ out' = 0
                          /\ A' = [A EXCEPT ![i] = [z |-> z, d |-> d]]
Resize(i, n) == On(i) /\ n > 0 /\ act' = <<"resize", i, n>> /\ out' = 0 /\ Put(i, Fit(A[i].d, n, A[i].z))
Copy(i, j, n) == /\ On(i) /\ ~On(j) /\ act' = <<"copy", i, j, n>> /\ out' = 0
                 /\ A' = [A EXCEPT ![j] = [z |-> A[i].z, d |-> Fit(A[i].d, n, A[i].z)]]
\* give up elements at the end; the old length comes back
SetLen(i, n) == On(i) /\ n <= Len(A[i].d) /\ act' = <<"setlen", i, n>> /\ out' = Len(A[i].d) /\ Put(i, SubSeq(A[i].d, 1, n))
Store(i, k, x) == /\ On(i) /\ k < Len(A[i].d) /\ Len(x) = A[i].z /\ act' = <<"put", i, k, x>> /\ out' = 0
                  /\ Put(i, [A[i].d EXCEPT ![k + 1] = x])
Get(i, k) == On(i) /\ k < Len(A[i].d) /\ act' = <<"get", i, k>> /\ out' = A[i].d[k + 1] /\ UNCHANGED A
ElemCopy(i, k) == On(i) /\ k < Len(A[i].d) /\ act' = <<"elemcopy", i, k>> /\ out' = A[i].d[k + 1] /\ UNCHANGED A
Free(i) == On(i) /\ act' = <<"free", i>> /\ out' = 0 /\ A' = [A EXCEPT ![i] = NONE]
Elems(z) == [1..z -> Bytes]
Init == A = [i \in Arrs |-> NONE] /\ out = 0 /\ act = <<"init">>
Next == \E i \in Arrs :
          \/ Free(i)
          \/ \E z \in Sizes, n \in 0..MaxLen : New(i, n, z)
          \/ \E z \in Sizes, n \in 1..2, copy \in {0, 1} : \E d \in [1..n -> Elems(z)] : With(i, d, z, copy) \/ SetData(i, d, z, copy)
          \/ \E n \in 0..MaxLen : Resize(i, n) \/ SetLen(i, n) \/ \E j \in Arrs : Copy(i, j, n)
          \/ \E k \in 0..(MaxLen - 1) : Get(i, k) \/ ElemCopy(i, k) \/ \E x \in Elems(A[i].z) : On(i) /\ Store(i, k, x)
Spec == Init /\ [][Next]_vars
View == A
WellFormed == \A i \in Arrs : \A k \in 1..Len(A[i].d) : Len(A[i].d[k]) = A[i].z
Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
KeepsPrefix == [][act'[1] \in {"resize", "setlen"} =>
                     LET i == act'[2] IN Prefix(A[i].d, A'[i].d) \/ Prefix(A'[i].d, A[i].d)]_vars
Others == [][\A i \in Arrs : (i # act'[2] /\ ~(act'[1] = "copy" /\ i = act'[3])) => A'[i] = A[i]]_vars
Emit == PrintT("@T" \o ToJson([f |-> ToString(View), a |-> act', t |-> ToString(View'), i |-> TLCGet("level") = 1]))
=============================================================================
