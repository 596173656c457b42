-------------------------------- MODULE Mt --------------------------------
(* Random sequences: every state holds the last NN words of its own sequence, and the next one follows from three of them by
   the recurrence of the Mersenne twister (MT19937 for NN = 624, MM = 397).  What is handed out is the word tempered.     *)
EXTENDS Word32, TLC, Json, FiniteSets, SequencesExt
CONSTANTS NN, MM, NC, Time, MSeeds, MKeys, MaxDraws
VARIABLES ctx, act, out
svars == <<ctx, act, out>>
None == <<>>
Ctx == 1..NC
\* ------------------------------------------------------------------ seeding
M1 == <<27655, 35173>>                                    \* 1812433253
M2 == <<25, 26125>>                                       \* 1664525
M3 == <<23896, 35685>>                                    \* 1566083941
Fold(w) == WXor(w, WShr(w, 30))
The(S) == CHOOSE x \in S : TRUE                          \* (evaluated once)
Count(n) == [k \in 1..n |-> k]
Seeded(s) == FoldLeft(LAMBDA x, k : Append(x, WAdd(WMul(M1, Fold(x[k])), WNum(k))), <<s>>, Count(NN - 1))
\* positions 1..NN-1 are gone round, each made of what it was and of the one made before; q holds them from position i on,
\* p is the one made before, j counts the key, which goes round as well.  Counted from 0 as in the published algorithm.
Pos(i) == IF i + 1 >= NN THEN 1 ELSE i + 1
Step1(z, k, key) == LET j == (k - 1) % Len(key)
                        y == The({WAdd(t, WAdd(key[j + 1], WNum(j))) : t \in {WXor(z.q[1], m) : m \in {WMul(f, M2) : f \in {Fold(z.p)}}}})
                    IN [q |-> Append(Tail(z.q), y), p |-> y, i |-> Pos(z.i)]
Step2(z) == LET y == The({WSub(t, WNum(z.i)) : t \in {WXor(z.q[1], m) : m \in {WMul(f, M3) : f \in {Fold(z.p)}}}})
            IN [q |-> Append(Tail(z.q), y), p |-> y, i |-> Pos(z.i)]
KeyBase == Seeded(<<299, 54954>>)                         \* 19650218
SeededBy(key) == LET n == IF Len(key) > NN THEN Len(key) ELSE NN
                     m == FoldLeft(LAMBDA z, k : Step1(z, k, key), [q |-> Tail(KeyBase), p |-> KeyBase[1], i |-> 1], Count(n))
                     z == FoldLeft(LAMBDA y, k : Step2(y), m, Count(NN - 1))
                     at == NN - z.i                       \* q[at + 1] is position 1 once more (or q[1])
                 IN <<<<32768, 0>>>> \o SubSeq(z.q, at + 1, NN - 1) \o SubSeq(z.q, 1, at)
\* ------------------------------------------------------------------ the sequence
Twist(a, b) == LET y == WOr(WAnd(a, <<32768, 0>>), WAnd(b, <<32767, 65535>>)) IN
               WXor(WShr(y, 1), IF y[2] % 2 = 1 THEN <<39176, 45279>> ELSE <<0, 0>>)
\* as many as follow from the last NN alone, and those before them
Follow(q, m) == [i \in 1..m |-> WXor(q[i + MM], Twist(q[i], q[i + 1]))]
Temper(v) == LET a == WXor(v, WShr(v, 11))
                 b == WXor(a, WAnd(WShl(a, 7), <<40236, 22144>>))
                 c == WXor(b, WAnd(WShl(b, 15), <<61382, 0>>))
             IN WXor(c, WShr(c, 18))
Begin(c) == IF ctx[c] = None THEN Seeded(Time) ELSE ctx[c]    \* one never seeded takes the time
RECURSIVE Take(_, _)
Take(q, n) == IF n = 0 THEN <<q, <<>>>>
              ELSE LET m == IF n < NN - MM THEN n ELSE NN - MM
                       x == SubSeq(Follow(q, m), 1, m)
                       r == Take(SubSeq(q, m + 1, NN) \o x, n - m)
                   IN <<r[1], [k \in 1..m |-> Temper(x[k])] \o r[2]>>
Upd(c, q, o, a) == ctx' = [ctx EXCEPT ![c] = q] /\ out' = o /\ act' = a
SeedOne(c, s) == Upd(c, Seeded(s), 0, <<"seed", c, s>>)
SeedMany(c, key) == Upd(c, SeededBy(key), 0, <<"array", c, key>>)
Draw(c, n) == LET t == Take(Begin(c), n) IN Upd(c, t[1], t[2], <<"draw", c, n>>)
\* real numbers: the word they are made of, exactly; f00 adds a half
Real(c, n, kind) == LET t == Take(Begin(c), n) IN Upd(c, t[1], [k \in 1..n |-> <<t[2][k], kind = 2, TRUE>>], <<"real", c, n, kind>>)
Load(c, w) == Upd(c, [i \in 1..NN |-> IF i = MM + 1 THEN w ELSE <<0, 0>>], 0, <<"load", c, w>>)
Init == ctx = [c \in Ctx |-> None] /\ act = <<"start">> /\ out = 0
\* ------------------------------------------------------------------ how the code does it: NN words at a time, in place
VARIABLES mt, mti, last, drawn
vars == <<ctx, act, out, mt, mti, last, drawn>>
RECURSIVE Gen(_, _)
Gen(x, k) == IF k = NN THEN x
             ELSE Gen([x EXCEPT ![k + 1] = WXor(x[((k + MM) % NN) + 1], Twist(x[k + 1], x[((k + 1) % NN) + 1]))], k + 1)
ISet(c, x) == mt' = [mt EXCEPT ![c] = x] /\ mti' = [mti EXCEPT ![c] = NN] /\ last' = 0 /\ drawn' = [drawn EXCEPT ![c] = 0]
IDraw(c) == LET x0 == IF mt[c] = None THEN Seeded(Time) ELSE mt[c]
                x == IF mt[c] = None \/ mti[c] >= NN THEN Gen(x0, 0) ELSE x0
                i == IF mt[c] = None \/ mti[c] >= NN THEN 0 ELSE mti[c]
            IN mt' = [mt EXCEPT ![c] = x] /\ mti' = [mti EXCEPT ![c] = i + 1] /\ last' = <<Temper(x[i + 1])>> /\ drawn' = [drawn EXCEPT ![c] = @ + 1]
IInit == Init /\ mt = [c \in Ctx |-> None] /\ mti = [c \in Ctx |-> 0] /\ last = 0 /\ drawn = [c \in Ctx |-> 0]
INext == \E c \in Ctx :
           \/ \E s \in MSeeds : SeedOne(c, s) /\ ISet(c, Seeded(s))
           \/ \E k \in MKeys : SeedMany(c, k) /\ ISet(c, SeededBy(k))
           \/ drawn[c] < MaxDraws /\ Draw(c, 1) /\ IDraw(c)
Spec == IInit /\ [][INext]_vars
\* the code's sequence is the recurrence's, and contexts do not disturb each other
SameSequence == [][last' = out']_vars
Others == [][\A c \in Ctx : act'[2] # c => ctx'[c] = ctx[c]]_vars
Words == \A c \in Ctx : ctx[c] # None => Len(ctx[c]) = NN /\ \A k \in 1..NN : ctx[c][k][1] \in 0..65535 /\ ctx[c][k][2] \in 0..65535
GView == <<ctx, mti, mt>>
MSeedsSmall == {<<0, 0>>, <<65535, 65535>>}
MKeysSmall == {<<<<0, 1>>>>, <<<<0, 291>>, <<0, 564>>, <<0, 837>>, <<0, 1110>>, <<1, 7>>, <<9, 9>>>>}
TimeWord == <<21845, 4660>>
=============================================================================
