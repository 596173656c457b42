-------------------------------- MODULE Buf --------------------------------
(* zt_buf: byte buffers written at the end and consumed from the front.  room[i] is the space that can be
   filled before buffer i must grow; how much it grows is left open.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NB, Bytes, MaxLen, MaxRoom
VARIABLES s,        \* s[i]: the contents, NONE when buffer i does not exist
          room, failing, out, act
vars == <<s, room, failing, out, act>>
NONE == <<-1>>
Bufs == 1..NB
On(i) == s[i] # NONE
Fail == failing = TRUE
\* growing needs memory; when there is none the call fails and nothing changes.  k becomes the free space afterwards.
NoRoom(i, k) == out' = -1 /\ failing' = FALSE /\ k >= room[i] /\ room' = [room EXCEPT ![i] = k] /\ UNCHANGED s
Grow(i, n, t, k, ok) ==
    IF n <= room[i]
    THEN s' = [s EXCEPT ![i] = t] /\ room' = [room EXCEPT ![i] = @ + Len(s[i]) - Len(t)] /\ out' = ok /\ UNCHANGED failing
    ELSE IF failing THEN NoRoom(i, k)
         ELSE /\ s' = [s EXCEPT ![i] = t] /\ room' = [room EXCEPT ![i] = k] /\ out' = ok /\ UNCHANGED failing
              /\ k >= 0 /\ (t = s[i] => k >= n)
New(i) == /\ ~On(i) /\ act' = <<"new", i>> /\ out' = 0
          /\ s' = [s EXCEPT ![i] = <<>>] /\ room' = [room EXCEPT ![i] = 0] /\ UNCHANGED failing
Add(i, d, k) == On(i) /\ act' = <<"add", i, d>> /\ Grow(i, Len(d), s[i] \o d, k, 0)
\* what buffer j holds goes to the end of buffer i
AddBuf(i, j, k) ==
    /\ On(i) /\ On(j) /\ i # j /\ act' = <<"addbuf", i, j>>
    /\ LET n == Len(s[j]) IN
       IF n > room[i] /\ failing THEN NoRoom(i, k)
       ELSE /\ s' = [s EXCEPT ![i] = @ \o s[j], ![j] = <<>>]
            /\ room' = [room EXCEPT ![i] = IF n <= @ THEN @ - n ELSE k, ![j] = @ + n]
            /\ k >= 0 /\ out' = 0 /\ UNCHANGED failing
RECURSIVE Cat(_)
Cat(v) == IF v = <<>> THEN <<>> ELSE v[1] \o Cat(Tail(v))
Iov(i, v, k) == On(i) /\ act' = <<"iov", i, v>> /\ Grow(i, Len(Cat(v)), s[i] \o Cat(v), k, Len(Cat(v)))
\* forget the first n bytes; out is how many are left
Rest(q, n) == IF n >= Len(q) THEN <<>> ELSE SubSeq(q, n + 1, Len(q))
Front(q, n) == IF n >= Len(q) THEN q ELSE SubSeq(q, 1, n)
Drain(i, n, k) == /\ On(i) /\ n > 0 /\ act' = <<"drain", i, n>> /\ out' = Len(Rest(s[i], n))
                  /\ s' = [s EXCEPT ![i] = Rest(@, n)] /\ k >= room[i] /\ room' = [room EXCEPT ![i] = k] /\ UNCHANGED failing
\* take out the first n bytes (fewer when there are not as many)
Remove(i, n, k) == /\ On(i) /\ act' = <<"remove", i, n>> /\ out' = Front(s[i], n)
                   /\ s' = [s EXCEPT ![i] = Rest(@, n)] /\ k >= room[i] /\ room' = [room EXCEPT ![i] = k] /\ UNCHANGED failing
Reserve(i, n, k) == On(i) /\ act' = <<"reserve", i, n>> /\ Grow(i, n, s[i], k, 0)
Expand(i, n, k) == /\ On(i) /\ act' = <<"expand", i, n>>
                   /\ IF failing THEN NoRoom(i, k)
                      ELSE /\ k >= n /\ room' = [room EXCEPT ![i] = k] /\ out' = 0 /\ UNCHANGED <<s, failing>>
Free(i) == /\ On(i) /\ act' = <<"free", i>> /\ out' = 0
           /\ s' = [s EXCEPT ![i] = NONE] /\ room' = [room EXCEPT ![i] = 0] /\ UNCHANGED failing
NoMem == ~failing /\ act' = <<"nomem">> /\ out' = 0 /\ failing' = TRUE /\ UNCHANGED <<s, room>>

Init == s = [i \in Bufs |-> NONE] /\ room = [i \in Bufs |-> 0] /\ failing = FALSE /\ out = 0 /\ act = <<"init">>
Strings == UNION {[1..n -> Bytes] : n \in 0..2}
\* graph model: growing is to the least room that fits
Least(i, n, t) == IF t THEN n ELSE 0
Next == \/ \E i \in Bufs : \/ New(i) \/ Free(i)
                           \/ \E d \in Strings, k \in 0..MaxRoom : Add(i, d, k)
                           \/ \E j \in Bufs, k \in 0..MaxRoom : AddBuf(i, j, k)
                           \/ \E d \in Strings, f \in [1..1 -> Bytes], k \in 0..MaxRoom : Iov(i, <<f, <<>>, d>>, k)
                           \/ \E n \in 0..2, k \in 0..MaxRoom : Remove(i, n, k) \/ Reserve(i, n, k) \/ Expand(i, n, k)
                           \/ \E n \in 1..2, k \in 0..MaxRoom : Drain(i, n, k)
        \/ NoMem
Spec == Init /\ [][Next]_vars
View == <<s, room, failing>>
GView == <<s, failing, [i \in Bufs |-> room[i] > 0]>>
Bound == \A i \in Bufs : Len(s[i]) <= MaxLen /\ room[i] <= MaxRoom
RoomSane == \A i \in Bufs : room[i] >= 0 /\ (On(i) \/ room[i] = 0)
\* first in, first out: what comes out is what was at the front, what stays is what was behind it
Fifo == [][act'[1] = "remove" => LET i == act'[2] IN s[i] = out' \o s'[i]]_vars
Others == [][\A i \in Bufs : (Len(act') >= 2 /\ i # act'[2] /\ ~(act'[1] = "addbuf" /\ i = act'[3])) => s'[i] = s[i]]_vars
FailKeeps == [][act'[1] # "remove" /\ out' = -1 => s' = s]_vars
Conserve == [][act'[1] = "addbuf" /\ s' # s => s'[act'[2]] = s[act'[2]] \o s[act'[3]]]_vars
Emit == PrintT("@T" \o ToJson([f |-> ToString(GView), a |-> act', t |-> ToString(GView'), i |-> TLCGet("level") = 1]))
=============================================================================
