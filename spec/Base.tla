-------------------------------- MODULE Base --------------------------------
(* Base 64, 32 and 16 encodings (RFC 4648).  Data and text are sequences of codes.  Encoding cuts the bits of the data
   in groups of 6, 5 or 4, each shown as one character of the alphabet, the last filled with zeros, and pads the text
   to a whole number of groups if asked.  Decoding skips blanks, line ends and padding, refuses any other character
   that is not in the alphabet and any text that no data encodes to, and gives back the data.                      *)
EXTENDS Num, FiniteSets, TLC, Json
CONSTANTS MBytes, MLen                    \* bytes and length of the data in models
VARIABLES data, act, out                 \* data: what has been put together so far (models)
vars == <<data, act, out>>
Codes(f, t) == [i \in 1..(t - f + 1) |-> f + i - 1]
AZ == Codes(65, 90)
az == Codes(97, 122)
D09 == Codes(48, 57)
Alpha == <<AZ \o az \o D09 \o <<43, 47>>,          \* 1 base 64
           AZ \o az \o D09 \o <<43, 47>>,          \* 2 base 64 without padding
           AZ \o az \o D09 \o <<45, 95>>,          \* 3 base 64 for URIs
           AZ \o Codes(50, 55),                    \* 4 base 32
           D09 \o Codes(65, 86),                   \* 5 base 32, hex alphabet
           D09 \o Codes(65, 70)>>                  \* 6 base 16
Defs == 1..6
OBits == <<6, 6, 6, 5, 5, 4>>
IGroup == <<3, 3, 3, 5, 5, 1>>
OGroup == <<4, 4, 4, 8, 8, 2>>
Pads(d) == d # 6
PadC == 61
Skip == {9, 10, 13, 32, PadC}
Index == [d \in Defs |-> [c \in 0..255 |-> IF \E i \in 1..Len(Alpha[d]) : Alpha[d][i] = c
                                           THEN (CHOOSE i \in 1..Len(Alpha[d]) : Alpha[d][i] = c) - 1 ELSE -1]]
Ceil(x, y) == (x + y - 1) \div y
Pow2 == [i \in 0..16 |-> 2 ^ i]
\* bits k .. k+w-1 (from 0) of the data, zeros behind its end; w <= 8
BitsAt(b, k, w) == LET i == k \div 8 + 1
                       v == (IF i <= Len(b) THEN b[i] ELSE 0) * 256 + (IF i + 1 <= Len(b) THEN b[i + 1] ELSE 0)
                   IN (v \div Pow2[16 - (k % 8) - w]) % Pow2[w]
Chars(d, b) == Ceil(8 * Len(b), OBits[d])
EncLen(d, p, b) == IF p /\ Pads(d) THEN OGroup[d] * Ceil(Len(b), IGroup[d]) ELSE Chars(d, b)
Enc(d, p, b) == [j \in 1..EncLen(d, p, b) |-> IF j <= Chars(d, b) THEN Alpha[d][BitsAt(b, (j - 1) * OBits[d], OBits[d]) + 1] ELSE PadC]
\* decoding
Kept(s) == SelectSeq(s, LAMBDA c : c \notin Skip)
Legal(d, s) == \A i \in 1..Len(s) : s[i] \in Skip \/ Index[d][s[i]] >= 0
DecLen(d, n) == (n * OBits[d]) \div 8
Whole(d, n) == Ceil(8 * DecLen(d, n), OBits[d]) = n          \* n characters are what some data encodes to
Decodes(d, s) == Legal(d, s) /\ Whole(d, Len(Kept(s)))
DecByte(d, q, i) == LET w == OBits[d] f == (8 * (i - 1)) \div w                   \* characters f+1 .. f+3 hold byte i
                        V(k) == IF k <= Len(q) THEN Index[d][q[k]] ELSE 0
                        v == (V(f + 1) * Pow2[w] + V(f + 2)) * Pow2[w] + V(f + 3)
                    IN (v \div (2 ^ (3 * w - (8 * (i - 1) - f * w) - 8))) % 256
Dec(d, s) == LET q == Kept(s) IN [i \in 1..DecLen(d, Len(q)) |-> DecByte(d, q, i)]
\* the most room a decoder may ask for: whole groups, and a byte for each character more, with or without the padding at the end
RoomN(d, n) == (n \div OGroup[d]) * IGroup[d] + (n % OGroup[d])
Unpadded(s) == CHOOSE n \in 0..Len(s) : (n = 0 \/ s[n] # PadC) /\ \A i \in n + 1..Len(s) : s[i] = PadC
Room(d, s) == LET a == RoomN(d, Len(s)) b == RoomN(d, Unpadded(s)) IN IF a > b THEN a ELSE b

\* what a call answers: code, length, text.  How the caller offers room: <<"alloc">>: none, the result is allocated;
\* <<"buf", n>>: a buffer of n bytes; <<"none", n>>: no place for a buffer, or none, with length n.
EncAnswer(d, p, b, how) ==
    LET n == EncLen(d, p, b) IN
    IF b = <<>> THEN <<0, 0, <<>>>>
    ELSE IF how[1] = "alloc" THEN <<0, n, Enc(d, p, b)>>
    ELSE IF how[2] < n THEN <<-2, n, <<>>>>
    ELSE IF how[1] = "buf" THEN <<0, n, Enc(d, p, b)>> ELSE <<0, n, <<>>>>
DecAnswers(d, s, how, r) ==
    IF s = <<>> THEN r = <<0, 0, <<>>>>
    ELSE \* no room: the length needed (no less than the data, no more than Room)
         IF how[1] = "none" \/ (how[1] = "buf" /\ r[1] = -2)
         THEN /\ r[1] = (IF how[1] = "none" /\ (how[2] >= r[2] \/ how[3] = 0) THEN 0 ELSE -2) /\ r[2] <= Room(d, s) /\ r[3] = <<>>
              /\ (Decodes(d, s) => r[2] >= DecLen(d, Len(Kept(s)))) /\ (r[1] = -2 => r[2] > how[2])
    ELSE IF Decodes(d, s) THEN r = <<0, Len(Dec(d, s)), Dec(d, s)>> /\ (how[1] = "buf" => r[2] <= how[2])
    ELSE r[1] = -1
Encode(d, p, how, b) == act' = <<"enc", d, p, how, b>> /\ out' = EncAnswer(d, p, b, how) /\ UNCHANGED data
Decode(d, how, s, r) == act' = <<"dec", d, how, s>> /\ DecAnswers(d, s, how, r) /\ out' = r /\ UNCHANGED data

\* ------------------------------------------------------------------ model
Init == data = <<>> /\ act = <<"init">> /\ out = <<0, 0, <<>>>>
Put(x) == data' = Append(data, x) /\ act' = <<"put", x>> /\ UNCHANGED out
Hows(n) == {<<"alloc", 0>>, <<"buf", n>>, <<"buf", n - 1>>, <<"none", n>>, <<"none", n - 1>>}
EncodeIt(d, p) == \E how \in Hows(EncLen(d, p, data)) : how[2] >= 0 /\ Encode(d, p, how, data)
DecodeIt(d, p) == LET s == Enc(d, p, data) IN \E how \in {<<"alloc", 0>>, <<"buf", Room(d, s)>>} : Decode(d, how, s, <<0, Len(data), data>>)
RefuseIt(d) == data # <<>> /\ ~Decodes(d, data) /\ Decode(d, <<"alloc", 0>>, data, <<-1, 0, <<>>>>)
Next == \/ \E x \in MBytes : Len(data) < MLen /\ Put(x)
        \/ \E d \in Defs, p \in BOOLEAN : EncodeIt(d, p) \/ DecodeIt(d, p)
        \/ \E d \in Defs : RefuseIt(d)
Spec == Init /\ [][Next]_vars
View == data
RoundTrip == \A d \in Defs, p \in BOOLEAN : LET s == Enc(d, p, data) IN Decodes(d, s) /\ Dec(d, s) = data /\ Len(data) <= Room(d, s)
InAlphabet == \A d \in Defs, p \in BOOLEAN : LET s == Enc(d, p, data) IN
                 /\ \A i \in 1..Chars(d, data) : Index[d][s[i]] >= 0
                 /\ \A i \in Chars(d, data) + 1..Len(s) : s[i] = PadC
                 /\ (p => Len(s) % OGroup[d] = 0)
\* re-encoding what text decodes to gives the text's characters back, up to the unused bits of the last one
Canon == \A d \in Defs : Decodes(d, data) => LET q == Kept(data) t == Enc(d, FALSE, Dec(d, data)) IN
             Len(t) = Len(q) /\ SubSeq(t, 1, Len(t) - 1) = SubSeq(q, 1, Len(q) - 1)
=============================================================================
