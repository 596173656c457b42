-------------------------------- MODULE CHex --------------------------------
(* Bytes shown as text: dumps in rows of sixteen, hexadecimal digits and back, and decimal numbers written into a buffer.
   Calls are tuples <<operation, arguments...>>.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MData, MTexts, MNum               \* in models: bytes, texts, numbers
VARIABLES act, out
vars == <<act, out>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
HexC(h) == IF h < 10 THEN 48 + h ELSE 87 + h
HexU(h) == IF h < 10 THEN 48 + h ELSE 55 + h
Val(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
Byte(b) == <<HexC(b \div 16), HexC(b % 16)>>
RECURSIVE Flat(_, _, _)
Flat(b, k, sep) == IF k > Len(b) THEN <<>> ELSE Byte(b[k]) \o sep \o Flat(b, k + 1, sep)
Blanks(n) == [k \in 1..n |-> 32]
\* ------------------------------------------------------------------ dumps
Rows(b) == [k \in 1..((Len(b) + 15) \div 16) |-> LET p == SubSeq(b, (16 * k) - 15, Min(16 * k, Len(b)))
                                                IN <<16 * (k - 1), Flat(p, 1, <<32>>), [x \in 1..Len(p) |-> IF p[x] \in 32..126 THEN p[x] ELSE 46]>>]
End == <<0, <<>>, <<>>>>
Dump(b, stop) == LET q == Rows(b) IN IF stop > 0 /\ stop <= Len(q) THEN <<-1, SubSeq(q, 1, stop)>> ELSE <<Len(b), Append(q, End)>>
\* a row printed: address, four groups of four bytes, the characters after a bar at column 59
Group(h, k) == SubSeq(h, (12 * k) - 11, Min(12 * k, Len(h)))
\* an address is sixteen digits, of which four, eight or all are shown, and the bar moves along
RECURSIVE Digits(_, _)
Digits(n, k) == IF k = 0 THEN <<>> ELSE Append(Digits(n \div 16, k - 1), n % 16)
Shown(d) == LET w == IF \A k \in 1..12 : d[k] = 0 THEN 4 ELSE IF \A k \in 1..8 : d[k] = 0 THEN 8 ELSE 16 IN [k \in 1..w |-> HexU(d[16 - w + k])]
RowText(q) == LET a == Shown(q[1])
                  t == a \o Blanks(3) \o Group(q[2], 1) \o <<32>> \o Group(q[2], 2) \o <<32>> \o Group(q[2], 3) \o <<32>> \o Group(q[2], 4)
              IN t \o Blanks(55 + Len(a) - Len(t)) \o <<124, 32>> \o q[3] \o <<10>>
RECURSIVE Lines(_, _)
Lines(q, k) == IF k > Len(q) THEN <<10>> ELSE RowText(<<Digits(q[k][1], 16), q[k][2], q[k][3]>>) \o Lines(q, k + 1)
\* the end of a dump of 2^32 + n bytes, byte p being p % 256, from two rows before on
FarRow(k, len) == LET b == [x \in 1..len |-> ((16 * (k + 16)) + x - 1) % 256]
                  IN <<IF k < 0 THEN [x \in 1..8 |-> 0] \o [x \in 1..6 |-> 15] \o <<16 + k, 0>> ELSE [x \in 1..7 |-> 0] \o <<1>> \o Digits(16 * k, 8),
                       Flat(b, 1, <<32>>), [x \in 1..len |-> IF b[x] \in 32..126 THEN b[x] ELSE 46]>>
Far(n) == <<[j \in 1..(2 + ((n + 15) \div 16)) |-> FarRow(j - 3, IF j > 2 THEN Min(16, n - (16 * (j - 3))) ELSE 16)], n>>
\* ------------------------------------------------------------------ digits
ToHex(b, room) == LET n == Min(Len(b), room \div 2) IN <<2 * n, Flat(SubSeq(b, 1, n), 1, <<>>)>>
Upto(s, n) == LET z == {k \in 1..Len(s) : s[k] = 0} IN SubSeq(s, 1, Min(n, IF z = {} THEN Len(s) ELSE (CHOOSE k \in z : \A x \in z : k <= x) - 1))
\* room: bytes there is room for; what lies beyond is not looked at
FromHex(s, room) == LET n == Min(room, (Len(s) + 1) \div 2)
                        t == SubSeq(s, 1, Min(2 * n, Len(s)))
                    IN IF Len(t) % 2 = 1 \/ \E k \in 1..Len(t) : Val(t[k]) < 0 THEN <<0, TRUE, <<>>>>
                       ELSE <<n, FALSE, [k \in 1..n |-> (16 * Val(t[(2 * k) - 1])) + Val(t[2 * k])]>>
\* ------------------------------------------------------------------ decimal numbers (any 32 bit integer)
RECURSIVE Dec(_), NegDec(_)
Dec(v) == IF v < 10 THEN <<48 + v>> ELSE Append(Dec(v \div 10), 48 + (v % 10))
NegDec(v) == IF v = 0 THEN <<>> ELSE LET d == (10 - (v % 10)) % 10 IN Append(NegDec((v + d) \div 10), 48 + d)
Num(v) == IF v < 0 THEN <<45>> \o NegDec(v) ELSE Dec(v)
Fill == 238
Itoa(v, at, size) == LET t == Num(v)
                         n == at + Len(t)
                     IN IF n >= size THEN <<-1, [k \in 1..size |-> Fill]>>
                        ELSE <<n, [k \in 1..size |-> IF k <= at \/ k > n + 1 THEN Fill ELSE IF k = n + 1 THEN 0 ELSE t[k - at]]>>
\* ------------------------------------------------------------------ calls
Result(a) == CASE a[1] = "dump" -> Dump(a[2], a[3])
               [] a[1] = "print" -> <<Len(a[2]), Lines(Rows(a[2]), 1)>>
               [] a[1] = "line" -> RowText(<<a[2], Rows(a[3])[1][2], Rows(a[3])[1][3]>>)
               [] a[1] = "far" -> Far(a[2])
               [] a[1] = "b2h" -> ToHex(a[2], a[3])
               [] a[1] = "b2hlen" -> ToHex(a[2], a[3])[1]
               [] a[1] = "h2b" -> FromHex(Upto(a[2], a[3]), a[4])
               [] a[1] = "h2blen" -> FromHex(Upto(a[2], a[3]), 100000)[1]
               [] a[1] = "itoa" -> Itoa(a[2], a[3], a[4])
               [] a[1] = "itoanull" -> -1
               [] a[1] = "ilen" -> Len(Num(a[2]))
Do(a) == act' = a /\ out' = Result(a)
Init == act = <<"start">> /\ out = 0
\* ------------------------------------------------------------------ model
Counting(n) == [k \in 1..n |-> (k * 37) % 256]
DumpAll == act[1] = "start" /\ \E n \in MData, s \in 0..4 : Do(<<"dump", Counting(n), s>>)
PrintAll == act[1] = "start" /\ \E n \in MData : Do(<<"print", Counting(n)>>)
LineAll == act[1] = "start" /\ \E k \in 1..15, x \in {1, 15}, n \in 1..16 : Do(<<"line", [y \in 1..16 |-> IF y = k THEN x ELSE 0], Counting(n)>>)
ToHexAll == act[1] = "start" /\ \E n \in 0..4, m \in 0..10 : Do(<<"b2h", Counting(n), m>>)
FromHexAll == act[1] = "start" /\ \E s \in MTexts, m \in 0..5, d \in 0..3 : Do(<<"h2b", s, m, d>>)
Number == act[1] = "start" /\ \E v \in MNum, at \in 0..2, z \in 0..14 : Do(<<"itoa", v, at, z>>)
Width == act[1] = "start" /\ \E v \in MNum : Do(<<"ilen", v>>)
Next == DumpAll \/ PrintAll \/ LineAll \/ ToHexAll \/ FromHexAll \/ Number \/ Width
Spec == Init /\ [][Next]_vars
GView == 0
Emit == PrintT("@T" \o ToJson([f |-> "0", a |-> act', t |-> "0", i |-> TRUE]))
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
MDataSmall == 0..50
MTextsSmall == Strings({48, 97, 70, 103}, 4)
MNumSmall == {0, 1, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 99999, 100000, 999999, 1000000, 9999999, 123456789, 999999999, 1000000000, 2147483647, -1, -9, -10, -99, -100, -999, -1000, -10000, -99999, -1000000, -999999999, -1000000000, -2147483647, -2147483647 - 1}
\* ------------------------------------------------------------------ what users rely on, said differently
RECURSIVE Bytes(_, _), Value(_, _)
Bytes(q, k) == IF k > Len(q) THEN <<>> ELSE [x \in 1..(Len(q[k][2]) \div 3) |-> (16 * Val(q[k][2][(3 * x) - 2])) + Val(q[k][2][(3 * x) - 1])] \o Bytes(q, k + 1)
Value(s, k) == IF k = 0 THEN 0 ELSE (Value(s, k - 1) * 10) - (s[k] - 48)
Laws == CASE act[1] = "dump" -> IF out[1] >= 0 THEN Bytes(out[2], 1) = act[2] ELSE Bytes(out[2], 1) = SubSeq(act[2], 1, Min(Len(act[2]), 16 * act[3]))
          [] act[1] = "print" -> Len(out[2]) >= 62 * ((Len(act[2]) + 15) \div 16)
          [] act[1] = "b2h" -> out[1] = Len(out[2]) /\ out[1] <= act[3] /\ FromHex(out[2], 100)[3] = SubSeq(act[2], 1, out[1] \div 2)
          [] act[1] = "h2b" -> out[1] <= act[4] /\ (~out[2] => ToHex(out[3], 100)[2] = [k \in 1..2 * out[1] |-> HexC(Val(act[2][k]))])
          [] act[1] = "itoa" -> LET t == Num(act[2]) IN
                /\ IF act[2] < 0 THEN Value(Tail(t), Len(t) - 1) = act[2] ELSE Value(t, Len(t)) = -act[2]
                /\ (out[1] >= 0) = (act[3] + Len(t) + 1 <= act[4])
          [] OTHER -> TRUE
=============================================================================
