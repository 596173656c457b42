-------------------------------- MODULE Uuid --------------------------------
(* Universally unique identifiers: 16 bytes, four text forms that name exactly them, an order, name-based identifiers
   (version 5: the SHA-1 of name space and name) and random ones (version 4), no two of which are the same, whichever
   thread or process made them.
   Text forms: 0 with dashes, 1 without, 2 base 62, 3 base 62 with the first half's digits reversed.             *)
EXTENDS Sha1, Num, FiniteSets, TLC, Json
CONSTANTS HB, HD, MVals                     \* bytes of half an identifier, its base 62 digits; values of bytes in models
VARIABLES seen, act, out
vars == <<seen, act, out>>
UB == 2 * HB
HexC(h) == IF h < 10 THEN 48 + h ELSE 87 + h
HexText(b) == [i \in 1..2 * Len(b) |-> LET x == b[((i - 1) \div 2) + 1] IN HexC(IF i % 2 = 1 THEN x \div 16 ELSE x % 16)]
AllHex(s) == \A i \in 1..Len(s) : \/ s[i] \in 48..57 \/ s[i] \in 97..102 \/ s[i] \in 65..70
FromHex(s) == [i \in 1..(Len(s) \div 2) |-> (16 * HexVal(s[(2 * i) - 1])) + HexVal(s[2 * i])]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* ------------------------------------------------------------------ base 62
C62(v) == IF v < 10 THEN 48 + v ELSE IF v < 36 THEN 87 + v ELSE 29 + v
V62(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..122 THEN c - 87 ELSE IF c \in 65..90 THEN c - 29 ELSE -1
RECURSIVE DivFrom(_, _, _), Digits(_, _), MulFrom(_, _, _), Value(_, _, _)
DivFrom(b, i, r) == IF i > Len(b) THEN <<<<>>, r>>
                    ELSE LET x == (r * 256) + b[i]
                             q == DivFrom(b, i + 1, x % 62) IN <<<<x \div 62>> \o q[1], q[2]>>
Digits(b, n) == IF n = 0 THEN <<>> ELSE LET d == DivFrom(b, 1, 0) IN Append(Digits(d[1], n - 1), C62(d[2]))
MulFrom(b, i, r) == IF i = 0 THEN <<<<>>, r>>
                    ELSE LET x == (b[i] * 62) + r
                             q == MulFrom(b, i - 1, x \div 256) IN <<Append(q[1], x % 256), q[2]>>
Value(b, s, i) == IF i > Len(s) THEN b                                   \* <<>>: more than the bytes hold
                  ELSE LET m == MulFrom(b, Len(b), V62(s[i])) IN IF m[2] > 0 THEN <<>> ELSE Value(m[1], s, i + 1)
Half(s) == Value([i \in 1..HB |-> 0], s, 1)

\* ------------------------------------------------------------------ text
TLen(f) == IF f = 0 THEN 36 ELSE IF f = 1 THEN 2 * UB ELSE 2 * HD
Text(u, f) == LET t == HexText(u) IN
              CASE f = 0 -> SubSeq(t, 1, 8) \o <<45>> \o SubSeq(t, 9, 12) \o <<45>> \o SubSeq(t, 13, 16) \o <<45>> \o SubSeq(t, 17, 20) \o <<45>> \o SubSeq(t, 21, 32)
                [] f = 1 -> t
                [] OTHER -> LET a == Digits(SubSeq(u, 1, HB), HD) IN (IF f = 3 THEN Rev(a) ELSE a) \o Digits(SubSeq(u, HB + 1, UB), HD)
Dash == {9, 14, 19, 24}
Bare(s) == SelectSeq(s, LAMBDA x : x # 45)
WellFormed(s, f) == /\ f \in 0..3 /\ Len(s) = TLen(f)
                    /\ CASE f = 0 -> (\A i \in 1..Len(s) : (s[i] = 45) <=> (i \in Dash)) /\ AllHex(Bare(s))
                         [] f = 1 -> AllHex(s)
                         [] OTHER -> \A i \in 1..Len(s) : V62(s[i]) >= 0
Halves(s, f) == LET a == SubSeq(s, 1, HD) IN <<Half(IF f = 3 THEN Rev(a) ELSE a), Half(SubSeq(s, HD + 1, 2 * HD))>>
Fits(s, f) == f < 2 \/ (LET h == Halves(s, f) IN h[1] # <<>> /\ h[2] # <<>>)
Parse(s, f) == CASE f = 0 -> FromHex(Bare(s)) [] f = 1 -> FromHex(s) [] OTHER -> LET h == Halves(s, f) IN h[1] \o h[2]
RECURSIVE Less(_, _, _)
Less(a, b, i) == i <= Len(a) /\ (a[i] < b[i] \/ (a[i] = b[i] /\ Less(a, b, i + 1)))

\* ------------------------------------------------------------------ operations
Marked(b, v) == [b EXCEPT ![7] = (v * 16) + (@ % 16), ![9] = 128 + (@ % 64)]
Space(ns) == <<107, 167, 184, CASE ns = 0 -> 16 [] ns = 1 -> 17 [] ns = 2 -> 18 [] ns = 3 -> 20, 157, 173, 17, 209, 128, 180, 0, 192, 79, 212, 48, 200>>
Random(u) == Len(u) = 16 /\ Marked(u, 4) = u
Generate(u) == /\ Random(u) /\ u \notin seen /\ seen' = seen \union {u} /\ out' = u /\ act' = <<"gen">>
Named(ns, v) == /\ out' = (IF ns \in 0..3 THEN <<0, Marked(SubSeq(Sha1Of(Space(ns) \o v), 1, 16), 5)>> ELSE <<-1, <<>>>>)
                /\ UNCHANGED seen /\ act' = <<"named", ns, v>>
ToStr(u, f) == out' = (IF f \in 0..3 /\ u # <<>> THEN <<TLen(f), Text(u, f)>> ELSE <<-1, <<>>>>) /\ UNCHANGED seen /\ act' = <<"tostr", u, f>>
\* k: the buffer's size; -1: none told; has: a buffer is given
Fill(u, has, k, f) == /\ out' = (IF f \notin 0..3 \/ k < 0 THEN <<-1, k, <<>>>>
                                 ELSE IF u = <<>> \/ ~has \/ k < TLen(f) + 1 THEN <<0, TLen(f) + 1, <<>>>> ELSE <<TLen(f), k, Text(u, f)>>)
                      /\ UNCHANGED seen /\ act' = <<"fill", u, has, k, f>>
OfStr(s, f) == out' = (IF WellFormed(s, f) /\ Fits(s, f) THEN <<0, Parse(s, f)>> ELSE <<-1, <<>>>>) /\ UNCHANGED seen /\ act' = <<"of", s, f>>
\* text of the right form for more bits than an identifier has is left open
Valid(s, f) == /\ out' \in (IF ~WellFormed(s, f) THEN {-1} ELSE IF Fits(s, f) THEN {0} ELSE {0, -1})
               /\ UNCHANGED seen /\ act' = <<"valid", s, f>>
Compare(a, b) == out' = (IF a = b THEN 0 ELSE IF Less(a, b, 1) THEN -1 ELSE 1) /\ UNCHANGED seen /\ act' = <<"cmp", a, b>>

\* ------------------------------------------------------------------ model: small halves, every identifier
Init == seen = {} /\ act = <<"start">> /\ out = 0
MU == [1..UB -> MVals]
ModelForm(f) == f >= 1 /\ act[1] = "start" /\ \E u \in MU : ToStr(u, f)
ModelParse == act[1] = "tostr" /\ OfStr(out[2], act[3])
\* every text of the form: its reading, if any, is written as it
AllText == LET a == {48, 49, 57, 97, 122, 65, 90} IN [1..2 * HD -> a]
ModelText(f) == f >= 2 /\ act[1] = "start" /\ \E s \in AllText : OfStr(s, f)
ModelWrite == act[1] = "of" /\ out[1] = 0 /\ TLen(act[3]) = Len(act[2]) /\ ToStr(out[2], act[3])
ModelCmp == act[1] = "start" /\ \E a, b \in MU : Compare(a, b)
ModelNext == ModelParse \/ ModelWrite \/ ModelCmp \/ \E f \in 1..3 : ModelForm(f) \/ ModelText(f)
ModelSpec == Init /\ [][ModelNext]_vars
\* a text read back names the identifier it was written from; texts of one form are as many as identifiers
RoundTrip == [][act[1] = "tostr" /\ act'[1] = "of" => out' = <<0, act[2]>>]_vars
TextTrip == [][act[1] = "of" /\ act'[1] = "tostr" => out'[2] = act[2]]_vars
Order == act[1] = "cmp" => out = -(IF act[2] = act[3] THEN 0 ELSE IF Less(act[3], act[2], 1) THEN -1 ELSE 1)
ASSUME Text(<<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, 0)[9] = 45
ASSUME C62(61) = 90 /\ \A v \in 0..61 : V62(C62(v)) = v
=============================================================================
