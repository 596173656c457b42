-------------------------------- MODULE Fmt --------------------------------
(* Formatted text.  A directive is % or ~, flags, a width, a precision and a conversion; the rest is copied.  Formats are
   sequences of character codes; arguments are sequences of bytes, the first telling what they are:
     0  an integer, four bytes, big end first      1  a string      2  a fraction: sign, n (three bytes), s; the value is n / 2^s
     3  a pointer, eight bytes                                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MFlags, MWidths, MPrecs, MInts, MStrs, MFracs, MTexts     \* in models
VARIABLES act, out
vars == <<act, out>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Pad(n, c) == [k \in 1..Max(0, n) |-> c]
From(s, k) == SubSeq(s, k, Len(s))
HexC(h) == IF h < 10 THEN 48 + h ELSE 87 + h
\* ------------------------------------------------------------------ numbers as digits
IntOf(b) == ((IF b[1] > 127 THEN b[1] - 256 ELSE b[1]) * 16777216) + (b[2] * 65536) + (b[3] * 256) + b[4]
RECURSIVE Dec(_), NegDec(_), Digits(_, _), Div(_, _, _, _), FracDigits(_, _, _), Inc(_)
Dec(v) == IF v < 10 THEN <<48 + v>> ELSE Append(Dec(v \div 10), 48 + (v % 10))
NegDec(v) == IF v = 0 THEN <<>> ELSE LET d == (10 - (v % 10)) % 10 IN Append(NegDec((v + d) \div 10), 48 + d)
DecOf(v) == IF v < 0 THEN NegDec(v) ELSE Dec(v)
\* the bytes b divided by base: <<quotient, remainder>>
Div(b, base, k, r) == IF k > Len(b) THEN <<<<>>, r>>
                      ELSE LET t == (r * 256) + b[k]  z == Div(b, base, k + 1, t % base) IN <<<<t \div base>> \o z[1], z[2]>>
Digits(b, base) == IF \A k \in 1..Len(b) : b[k] = 0 THEN <<>> ELSE LET d == Div(b, base, 1, 0) IN Append(Digits(d[1], base), HexC(d[2]))
UDigits(b, base) == LET d == Digits(b, base) IN IF d = <<>> THEN <<48>> ELSE d
\* ------------------------------------------------------------------ fractions, exactly
FracDigits(f, s, k) == IF k = 0 THEN <<>> ELSE <<48 + ((f * 10) \div s)>> \o FracDigits((f * 10) % s, s, k - 1)
IntPart(n, s) == Dec(n \div (2 ^ s))
FracPart(n, s) == FracDigits(n % (2 ^ s), 2 ^ s, s)                 \* all of it
Inc(d) == IF d = <<>> THEN <<49>> ELSE IF d[Len(d)] = 57 THEN Append(Inc(SubSeq(d, 1, Len(d) - 1)), 48)
          ELSE [d EXCEPT ![Len(d)] = @ + 1]
\* the first k digits of d, rounded to the nearest (even when half way); may be one longer by the carry
Round(d, k) == IF k >= Len(d) THEN d \o Pad(k - Len(d), 48)
               ELSE LET h == SubSeq(d, 1, k)  r == From(d, k + 1)
                        half == r[1] = 53 /\ \A x \in 2..Len(r) : r[x] = 48
                        up == IF half THEN h # <<>> /\ h[Len(h)] % 2 = 1 ELSE r[1] >= 53
                    IN IF up THEN Inc(h) ELSE h
Fixed(n, s, p) == LET i == IntPart(n, s)
                      d == Round(i \o FracPart(n, s), Len(i) + p)
                  IN SubSeq(d, 1, Len(d) - p) \o (IF p > 0 THEN <<46>> ELSE <<>>) \o From(d, Len(d) - p + 1)
Lead(d) == CHOOSE k \in 1..Len(d) : d[k] # 48 /\ \A x \in 1..(k - 1) : d[x] = 48
\* <<digits (p + 1 of them), exponent>>
Sci(n, s, p) == IF n = 0 THEN <<Pad(p + 1, 48), 0>>
                ELSE LET i == IntPart(n, s)  a == i \o FracPart(n, s)  z == Lead(a)
                         d == Round(From(a, z), p + 1)  e == Len(i) - z
                     IN IF Len(d) > p + 1 THEN <<SubSeq(d, 1, p + 1), e + 1>> ELSE <<d, e>>
Expo(e) == <<101, IF e < 0 THEN 45 ELSE 43>> \o (IF Abs(e) < 10 THEN <<48>> ELSE <<>>) \o Dec(Abs(e))
SciText(x) == <<x[1][1]>> \o (IF Len(x[1]) > 1 THEN <<46>> ELSE <<>>) \o Tail(x[1]) \o Expo(x[2])
RECURSIVE Trim(_)
Trim(t) == IF t[Len(t)] = 48 THEN Trim(SubSeq(t, 1, Len(t) - 1)) ELSE IF t[Len(t)] = 46 THEN SubSeq(t, 1, Len(t) - 1) ELSE t
General(n, s, q) == LET p == IF q = 0 THEN 1 ELSE q  x == Sci(n, s, p - 1) IN
                    IF p > x[2] /\ x[2] >= -4 THEN (IF p - 1 - x[2] = 0 THEN Fixed(n, s, 0) ELSE Trim(Fixed(n, s, p - 1 - x[2])))
                    ELSE LET m == <<x[1][1]>> \o (IF Len(x[1]) > 1 THEN <<46>> ELSE <<>>) \o Tail(x[1])
                         IN (IF Len(x[1]) > 1 THEN Trim(m) ELSE m) \o Expo(x[2])
FracText(c, a, p) == LET n == (a[3] * 65536) + (a[4] * 256) + a[5]  s == a[6]  q == IF p < 0 THEN 6 ELSE p IN
                     CASE c = 101 -> SciText(Sci(n, s, q)) [] c = 102 -> Fixed(n, s, q) [] c = 103 -> General(n, s, q)
\* ------------------------------------------------------------------ fields
\* d: flags (sequence), w: width, hw: was there one, p: precision, -1 for none
Left(d) == (\E k \in 1..Len(d.flags) : d.flags[k] = 45) \/ d.w < 0
Has(d, f) == \E k \in 1..Len(d.flags) : d.flags[k] = f
Field(d, t) == LET n == Abs(d.w) - Len(t) IN IF Left(d) THEN t \o Pad(n, 32) ELSE Pad(n, 32) \o t
NumField(d, sign, t, zeros) == IF Has(d, 48) /\ ~Left(d) /\ zeros THEN sign \o Pad(Abs(d.w) - Len(t) - Len(sign), 48) \o t ELSE Field(d, sign \o t)
Sign(d, neg) == IF neg THEN <<45>> ELSE IF Has(d, 43) THEN <<43>> ELSE IF Has(d, 32) THEN <<32>> ELSE <<>>
Whole(d, sign, t) == NumField(d, sign, IF d.p = 0 /\ t = <<48>> THEN <<>> ELSE Pad(d.p - Len(t), 48) \o t, d.p < 0)
Str(d, s) == Field(d, IF d.p >= 0 THEN SubSeq(s, 1, Min(d.p, Len(s))) ELSE s)
SInt(v) == IF v < 0 THEN <<45>> \o DecOf(v) ELSE DecOf(v)
\* the driver's own conversions: Q (integer) shows flags, width and precision it was given; S pads a string, N the text of a number
Order == <<43, 45, 32, 48, 35>>
RECURSIVE Count(_, _, _)
Count(s, c, k) == IF k > Len(s) THEN <<>> ELSE (IF s[k] = c THEN <<c>> ELSE <<>>) \o Count(s, c, k + 1)
Shown(s) == Count(s, 43, 1) \o Count(s, 45, 1) \o Count(s, 32, 1) \o Count(s, 48, 1) \o Count(s, 35, 1)
Own(d, v) == <<60>> \o Shown(d.flags) \o <<58>> \o (IF d.hw THEN SInt(d.w) ELSE <<42>>) \o <<58>> \o (IF d.hp THEN SInt(d.p) ELSE <<42>>) \o <<58>> \o SInt(v) \o <<62>>
Conv(d, c, a) ==
    LET b == From(a, 2) IN
    CASE c = 100 -> LET v == IntOf(b) IN Whole(d, Sign(d, v < 0), DecOf(v))
      [] c = 117 -> Whole(d, <<>>, UDigits(b, 10))
      [] c = 111 -> Whole(d, <<>>, UDigits(b, 8))
      [] c = 120 -> Whole(d, <<>>, UDigits(b, 16))
      [] c = 112 -> Whole([d EXCEPT !.p = -1], <<>>, UDigits(b, 16))
      [] c = 99  -> Field(d, <<b[4]>>)
      [] c = 115 -> IF Has(d, 35) THEN Str([d EXCEPT !.w = 0], IF Abs(d.w) < Len(b) THEN From(b, Abs(d.w) + 1) ELSE b) ELSE Str(d, b)
      [] c \in {101, 102, 103} -> NumField(d, Sign(d, a[2] = 1), FracText(c, a, d.p), TRUE)
      [] c = 83 -> Str(d, b)
      [] c = 78 -> IF b # <<>> /\ b[1] \in {43, 45} THEN Whole(d, <<b[1]>>, Tail(b)) ELSE Whole(d, Sign(d, FALSE), b)
      [] c \in {81, 85} -> Own(d, IntOf(b))                              \* Q, U
      [] c = 80 -> Own(d, IntOf(From(b, 5)))                             \* P
      [] c = 68 -> Own(d, (IF a[2] = 1 THEN -1 ELSE 1) * (((a[3] * 65536) + (a[4] * 256) + a[5]) \div (2 ^ a[6])))     \* D
\* ------------------------------------------------------------------ the format
IsDigit(c) == c \in 48..57
RECURSIVE FlagEnd(_, _), DigitEnd(_, _), Value(_, _, _), Format(_, _, _)
FlagEnd(f, i) == IF i <= Len(f) /\ f[i] \in {43, 45, 32, 48, 35} THEN FlagEnd(f, i + 1) ELSE i
DigitEnd(f, i) == IF i <= Len(f) /\ IsDigit(f[i]) THEN DigitEnd(f, i + 1) ELSE i
Value(f, i, j) == IF i >= j THEN 0 ELSE (Value(f, i, j - 1) * 10) + f[j - 1] - 48
At(f, i) == IF i <= Len(f) THEN f[i] ELSE 0
\* a width or precision at i: <<was there one, its value, where it ends, arguments left>>
NumberAt(f, i, as) == IF At(f, i) = 42 THEN <<TRUE, IntOf(From(as[1], 2)), i + 1, Tail(as)>>
                      ELSE LET j == DigitEnd(f, i) IN <<j > i, Value(f, i, j), j, as>>
Format(f, i, as) ==
    IF i > Len(f) THEN <<>>
    ELSE IF f[i] \notin {37, 126} THEN <<f[i]>> \o Format(f, i + 1, as)
    ELSE IF At(f, i + 1) \in {37, 126} THEN <<f[i + 1]>> \o Format(f, i + 2, as)
    ELSE LET j == FlagEnd(f, i + 1)
             w == NumberAt(f, j, as)
             p == IF At(f, w[3]) = 46 THEN NumberAt(f, w[3] + 1, w[4]) ELSE <<FALSE, 0, w[3], w[4]>>
             d == [flags |-> SubSeq(f, i + 1, j - 1), hw |-> w[1], w |-> IF w[1] THEN w[2] ELSE 0, hp |-> p[1], p |-> IF p[1] THEN p[2] ELSE -1]
         IN Conv(d, f[p[3]], p[4][1]) \o Format(f, p[3] + 1, Tail(p[4]))
\* ------------------------------------------------------------------ calls
UpToNul(t) == IF \E k \in 1..Len(t) : t[k] = 0 THEN SubSeq(t, 1, (CHOOSE k \in 1..Len(t) : t[k] = 0 /\ \A x \in 1..(k - 1) : t[x] # 0) - 1) ELSE t
Fill == 238
Given(t, a) == CASE a[1] \in {"format", "fprintf", "printf"} -> <<Len(t), t>>
                 [] a[1] = "string" -> <<0, UpToNul(t)>>
                 [] a[1] = "sprintf" -> LET n == Min(Len(t), a[3] - 1) IN <<n, SubSeq(t, 1, n) \o <<0>> \o Pad(a[3] - n - 1, Fill)>>
Known == {99, 100, 101, 102, 103, 111, 112, 115, 117, 120}
Result(a) == IF a[1] = "register" THEN <<a[2] \notin Known, TRUE, TRUE, <<60, 58, 51, 58, 42, 58, 55, 62>>>>
             ELSE Given(Format(a[2], 1, SubSeq(a, 4, Len(a))), a)       \* operation, format, room, arguments
Do(a) == act' = a /\ out' = Result(a)
Init == act = <<"start">> /\ out = 0
\* ------------------------------------------------------------------ model
Text(w) == IF w < 0 THEN <<>> ELSE Dec(w)
Dir(fl, w, p, c) == <<37>> \o fl \o Text(w) \o (IF p < 0 THEN <<>> ELSE <<46>> \o Dec(p)) \o <<c>>
Signless(fl) == \A k \in 1..Len(fl) : fl[k] \notin {43, 32}
Call(f, as) == \/ Do(<<"format", f, 0>> \o as)
Whole1 == act[1] = "start" /\ \E fl \in MFlags, w \in MWidths, p \in MPrecs, v \in MInts : Call(Dir(fl, w, p, 100), <<v>>)
Unsigned1 == act[1] = "start" /\ \E fl \in MFlags, w \in MWidths, p \in MPrecs, v \in MInts, c \in {111, 117, 120} : Signless(fl) /\ Call(Dir(fl, w, p, c), <<v>>)
String1 == act[1] = "start" /\ \E fl \in MFlags, w \in MWidths, p \in MPrecs, v \in MStrs : Call(Dir(fl, w, p, 115), <<v>>)
Char1 == act[1] = "start" /\ \E fl \in MFlags, w \in MWidths, v \in MInts : Call(Dir(fl, w, -1, 99), <<v>>)
Frac1 == act[1] = "start" /\ \E fl \in MFlags, w \in MWidths, p \in MPrecs, v \in MFracs, c \in 101..103 : Call(Dir(fl, w, p, c), <<v>>)
Own1 == act[1] = "start" /\ \E fl \in MFlags, w \in MWidths, p \in MPrecs : Call(Dir(fl, w, p, 81), << <<0, 0, 0, 0, 7>> >>)
Star1 == act[1] = "start" /\ \E fl \in MFlags, w \in {<<0, 0, 0, 0, 4>>, <<0, 255, 255, 255, 252>>}, p \in {<<0, 0, 0, 0, 2>>, <<0, 255, 255, 255, 252>>}, v \in MInts :
            Call(<<37>> \o fl \o <<42, 46, 42, 100>>, <<w, p, v>>)
Buffer1 == act[1] = "start" /\ \E z \in 1..9, t \in MTexts : Do(<<"sprintf", t, z, <<0, 0, 0, 0, 42>>, <<1, 97, 98, 99>>>>)
Ways == act[1] = "start" /\ \E o \in {"format", "fprintf", "printf", "string"}, t \in MTexts : Do(<<o, t, 0, <<0, 0, 0, 0, 42>>, <<1, 97, 98, 99>>>>)
Register1 == act[1] = "start" /\ \E c \in {100, 115, 113, 87, 200} : Do(<<"register", c, 0>>)
Next == Whole1 \/ Unsigned1 \/ String1 \/ Char1 \/ Frac1 \/ Own1 \/ Star1 \/ Buffer1 \/ Ways \/ Register1
Spec == Init /\ [][Next]_vars
GView == 0
Emit == PrintT("@T" \o ToJson([f |-> "0", a |-> act', t |-> "0", i |-> TRUE]))
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
MFlagsSmall == {<<>>, <<45>>, <<43>>, <<32>>, <<48>>, <<35>>, <<45, 48>>, <<48, 43>>, <<43, 32>>, <<48, 45>>, <<35, 45>>}
MWidthsSmall == {-1, 1, 2, 3, 6}
MPrecsSmall == {-1, 0, 1, 3}
MIntsSmall == {<<0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 7>>, <<0, 0, 0, 1, 44>>, <<0, 127, 255, 255, 255>>, <<0, 128, 0, 0, 0>>, <<0, 255, 255, 255, 255>>, <<0, 255, 255, 255, 214>>}
MStrsSmall == {<<1>>, <<1, 97>>, <<1, 97, 98, 200>>, <<1, 97, 98, 99, 100, 101>>}
MFracsSmall == {<<2, 0, 0, 0, 0, 0>>, <<2, 0, 0, 0, 1, 1>>, <<2, 1, 0, 0, 3, 1>>, <<2, 0, 0, 0, 1, 8>>, <<2, 1, 0, 4, 210, 0>>, <<2, 0, 3, 0, 1, 3>>, <<2, 0, 15, 66, 63, 0>>, <<2, 0, 0, 39, 15, 4>>, <<2, 1, 0, 0, 1, 12>>}
MTextsSmall == {<<37, 100>>, <<120, 126, 100, 37, 115>>, <<37, 37, 126, 126, 37, 126, 37, 100>>, <<37, 45, 53, 100, 124, 37, 53, 115>>}
\* ------------------------------------------------------------------ what users rely on, said differently
RECURSIVE Read(_, _)
Read(t, k) == IF k = 0 THEN 0 ELSE (Read(t, k - 1) * 10) - (t[k] - 48)      \* the negated value
IsCall == act[1] = "format"
Strip(t) == LET z == {k \in 1..Len(t) : t[k] \notin {32, 43, 45}} IN IF z = {} THEN <<>> ELSE
            LET i == CHOOSE k \in z : \A x \in z : k <= x  j == CHOOSE k \in z : \A x \in z : k >= x IN SubSeq(t, i, j)
Conversion == act[2][Len(act[2])]
Laws == /\ IsCall => out[1] = Len(out[2])
        /\ IsCall /\ Conversion = 100 /\ Len(act) = 4 =>
             LET d == Strip(out[2]) v == IntOf(Tail(act[4])) n == \E k \in 1..Len(out[2]) : out[2][k] = 45 IN
             /\ \A k \in 1..Len(d) : IsDigit(d[k])
             /\ Read(d, Len(d)) = (IF v < 0 THEN v ELSE -v) /\ n = (v < 0)
        /\ act[1] = "sprintf" => LET t == Format(act[2], 1, SubSeq(act, 4, Len(act))) IN
             out[1] < act[3] /\ Len(out[2]) = act[3] /\ SubSeq(out[2], 1, out[1]) = SubSeq(t, 1, out[1]) /\ (out[1] < Len(t) => out[1] = act[3] - 1)
=============================================================================
