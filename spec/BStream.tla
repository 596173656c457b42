------------------------------ MODULE BStream ------------------------------
(* zt_bstream: a stream of bytes with one position for reading and writing.  With flip set, what one call
   writes or reads goes through in reverse byte order.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NS, Bytes, MaxLen
VARIABLES S,   \* S[i]: [on, d: the bytes written or given so far, p: position, f: flip]
          out, act
vars == <<S, out, act>>
NONE == [on |-> FALSE, d |-> <<>>, p |-> 0, f |-> FALSE]
Ss == 1..NS
On(i) == S[i].on
D(i) == S[i].d
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Through(i, s) == IF S[i].f THEN Rev(s) ELSE s
New(i) == ~On(i) /\ act' = <<"new", i>> /\ out' = 0 /\ S' = [S EXCEPT ![i] = [NONE EXCEPT !.on = TRUE]]
Over(d, p, s) == [k \in 1..(IF p + Len(s) > Len(d) THEN p + Len(s) ELSE Len(d)) |->
                    IF k > p /\ k <= p + Len(s) THEN s[k - p] ELSE d[k]]
Write(i, s) == /\ On(i) /\ act' = <<"write", i, s>> /\ out' = 0
               /\ S' = [S EXCEPT ![i].d = Over(D(i), S[i].p, Through(i, s)), ![i].p = @ + Len(s)]
Read(i, n) == /\ On(i) /\ S[i].p + n <= Len(D(i)) /\ act' = <<"read", i, n>>
              /\ out' = Through(i, SubSeq(D(i), S[i].p + 1, S[i].p + n))
              /\ S' = [S EXCEPT ![i].p = @ + n]
Rewind(i) == On(i) /\ act' = <<"rewind", i>> /\ out' = S[i].p /\ S' = [S EXCEPT ![i].p = 0]
Truncate(i) == On(i) /\ act' = <<"truncate", i>> /\ out' = 0 /\ S' = [S EXCEPT ![i].d = <<>>, ![i].p = 0]
IsEmpty(i) == On(i) /\ act' = <<"isempty", i>> /\ out' = (IF D(i) = <<>> THEN 1 ELSE 0) /\ UNCHANGED S
Flip(i) == On(i) /\ act' = <<"flip", i>> /\ out' = 0 /\ S' = [S EXCEPT ![i].f = ~@]
Clone(i, j) == On(i) /\ ~On(j) /\ act' = <<"clone", i, j>> /\ out' = 0 /\ S' = [S EXCEPT ![j] = S[i]]
\* new contents from the start (the driver rewinds)
SetData(i, s, copy) == On(i) /\ s # <<>> /\ act' = <<"setdata", i, s, copy>> /\ out' = 0 /\ S' = [S EXCEPT ![i].d = s, ![i].p = 0]
\* new contents and position
SetArray(i, s, p) == On(i) /\ p <= Len(s) /\ s # <<>> /\ act' = <<"setarray", i, s, p>> /\ out' = 0 /\ S' = [S EXCEPT ![i].d = s, ![i].p = p]
Free(i) == On(i) /\ act' = <<"free", i>> /\ out' = 0 /\ S' = [S EXCEPT ![i] = NONE]
Strings == UNION {[1..n -> Bytes] : n \in 0..2}
Init == S = [i \in Ss |-> NONE] /\ out = 0 /\ act = <<"init">>
Next == \E i \in Ss :
          \/ New(i) \/ Rewind(i) \/ Truncate(i) \/ IsEmpty(i) \/ Flip(i) \/ Free(i)
          \/ \E s \in Strings : Write(i, s) \/ (\E c \in {0, 1} : SetData(i, s, c)) \/ (\E p \in 0..2 : SetArray(i, s, p))
          \/ \E n \in 0..2 : Read(i, n)
          \/ \E j \in Ss : Clone(i, j)
Spec == Init /\ [][Next]_vars
View == S
Bound == \A i \in Ss : Len(D(i)) <= MaxLen
Inside == \A i \in Ss : S[i].p <= Len(D(i))
\* what was just written can be read back from where it was written, in the same byte order
ReadBack == [][act'[1] = "write" =>
                 LET i == act'[2] n == Len(act'[3]) t == SubSeq(S'[i].d, S[i].p + 1, S[i].p + n)
                 IN act'[3] = (IF S[i].f THEN Rev(t) ELSE t) /\ S'[i].p = S[i].p + n]_vars
WriteKeeps == [][act'[1] = "write" => LET i == act'[2] IN
                 \A k \in 1..Len(D(i)) : (k <= S[i].p \/ k > S'[i].p) => S'[i].d[k] = D(i)[k]]_vars
Others == [][\A i \in Ss : (i # act'[2] /\ act'[1] # "clone") => S'[i] = S[i]]_vars
Emit == PrintT("@T" \o ToJson([f |-> ToString(View), a |-> act', t |-> ToString(View'), i |-> TLCGet("level") = 1]))
=============================================================================
