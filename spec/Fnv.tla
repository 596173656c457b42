-------------------------------- MODULE Fnv --------------------------------
(* FNV-1a hashes of 32 and 64 bits and their folding to fewer bits.  A hash is its bytes, little end first. *)
EXTENDS Word32, FiniteSets, TLC, Json, SequencesExt
CONSTANTS MTexts, MInits
VARIABLES act, out
vars == <<act, out>>
Fnv32 == [n |-> 4, low |-> 403, shift |-> 3, init |-> <<197, 157, 28, 129>>]                          \* prime 2^24 + 403
Fnv64 == [n |-> 8, low |-> 435, shift |-> 5, init |-> <<37, 35, 34, 132, 228, 156, 242, 203>>]        \* prime 2^40 + 435
Times(h, p) == FoldLeft(LAMBDA z, k : LET t == z[2] + (h[k] * p.low) + (IF k > p.shift THEN h[k - p.shift] ELSE 0)
                                      IN <<Append(z[1], t % 256), t \div 256>>, <<<<>>, 0>>, [k \in 1..p.n |-> k])[1]
Add(h, b, p) == Times([h EXCEPT ![1] = @ ^^ b], p)
Zero(h) == \A k \in 1..Len(h) : h[k] = 0
From(h, p) == IF Zero(h) THEN p.init ELSE h                \* 0 stands for the usual start
Hash(s, h, p) == FoldLeft(LAMBDA z, b : Add(z, b, p), From(h, p), s)
UpToNul(t) == IF \E k \in 1..Len(t) : t[k] = 0 THEN SubSeq(t, 1, (CHOOSE k \in 1..Len(t) : t[k] = 0 /\ \A x \in 1..(k - 1) : t[x] # 0) - 1) ELSE t
\* folding to x bits
W(h) == <<(h[4] * 256) + h[3], (h[2] * 256) + h[1]>>
B(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
Ones(x) == IF x = 0 THEN <<0, 0>> ELSE WShr(<<65535, 65535>>, 32 - x)
Low(w, x) == WAnd(w, Ones(x))
Shr(w, x) == IF x = 0 THEN w ELSE WShr(w, x)
FoldTo(h, x) == IF x > 31 THEN h ELSE B(IF x >= 16 THEN WXor(Shr(W(h), x), Low(W(h), x)) ELSE Low(WXor(Shr(W(h), x), W(h)), x))
Result(a) == CASE a[1] = "buf32" -> Hash(a[2], a[3], Fnv32)
               [] a[1] = "buf64" -> Hash(a[2], a[3], Fnv64)
               [] a[1] = "str32" -> Hash(UpToNul(a[2]), a[3], Fnv32)
               [] a[1] = "str64" -> Hash(UpToNul(a[2]), a[3], Fnv64)
               [] a[1] \in {"fold", "foldto"} -> FoldTo(a[2], a[3])
Do(a) == act' = a /\ out' = Result(a)
Init == act = <<"start">> /\ out = 0
\* ------------------------------------------------------------------ model
H32 == act[1] = "start" /\ \E o \in {"buf32", "str32"}, s \in MTexts, h \in MInits : Do(<<o, s, SubSeq(h, 1, 4)>>)
H64 == act[1] = "start" /\ \E o \in {"buf64", "str64"}, s \in MTexts, h \in MInits : Do(<<o, s, h>>)
Folding == act[1] = "start" /\ \E h \in MInits : \/ \E x \in 0..33 : Do(<<"foldto", SubSeq(h, 1, 4), x>>)
                                                 \/ \E x \in {4, 8, 16, 24} : Do(<<"fold", SubSeq(h, 1, 4), x>>)
Next == H32 \/ H64 \/ Folding
Spec == Init /\ [][Next]_vars
GView == 0
Emit == PrintT("@T" \o ToJson([f |-> "0", a |-> act', t |-> "0", i |-> TRUE]))
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
MTextsSmall == Strings({0, 97, 255}, 3)
MInitsSmall == {<<0, 0, 0, 0, 0, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, <<18, 52, 86, 120, 154, 188, 222, 240>>}
\* going on from the hash of a part is the hash of the whole; one byte more always tells hashes of the same start apart
Param == IF act[1] \in {"buf32", "str32"} THEN Fnv32 ELSE Fnv64
Laws == CASE act[1] \in {"buf32", "buf64"} ->
               /\ Len(out) = Param.n /\ \A k \in 1..Len(out) : out[k] \in 0..255
               /\ \A k \in 0..Len(act[2]) : LET h == Hash(SubSeq(act[2], 1, k), act[3], Param) IN
                    ~Zero(h) => Hash(SubSeq(act[2], k + 1, Len(act[2])), h, Param) = out
               /\ \A b \in {0, 1, 97, 254, 255} : \A d \in {0, 1, 97, 254, 255} : (Add(out, b, Param) = Add(out, d, Param)) = (b = d)
          [] act[1] \in {"fold", "foldto"} -> act[3] < 32 => W(out) = Low(W(out), act[3])
          [] OTHER -> TRUE
=============================================================================
