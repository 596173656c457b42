-------------------------------- MODULE Num --------------------------------
(* Numbers written as text; text is a sequence of character codes.  Values are canonical text too, so that they
   are not limited to TLC's integers.                                                                          *)
EXTENDS Integers, Sequences
Digit(c) == c \in 48..57
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Low(s) == [i \in 1..Len(s) |-> Lower(s[i])]
From(s, i) == SubSeq(s, i, Len(s))
All(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
RECURSIVE ValB(_, _), DigitsOf(_), SkipWhile0(_), Zeros(_)
ValB(s, b) == IF s = <<>> THEN 0 ELSE ValB(SubSeq(s, 1, Len(s) - 1), b) * b + HexVal(s[Len(s)])
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DigitsOf(n \div 10), 48 + (n % 10))
SkipWhile0(s) == IF Len(s) > 1 /\ s[1] = 48 THEN SkipWhile0(From(s, 2)) ELSE s
Zeros(n) == [i \in 1..n |-> 48]
Signed(s) == s # <<>> /\ s[1] \in {43, 45}
Neg(s) == s # <<>> /\ s[1] = 45
Mag(s) == IF Signed(s) THEN From(s, 2) ELSE s
\* integers as C writes them: decimal, 0x.. hexadecimal, 0.. octal
IsDec(m) == m # <<>> /\ All(m, Digit) /\ (m[1] # 48 \/ Len(m) = 1)
IsHex(m) == Len(m) > 2 /\ m[1] = 48 /\ m[2] \in {120, 88} /\ \A i \in 3..Len(m) : HexVal(m[i]) < 16
IsOct(m) == Len(m) > 1 /\ m[1] = 48 /\ \A i \in 2..Len(m) : HexVal(m[i]) < 8
IsInt(s) == LET m == Mag(s) IN IsDec(m) \/ IsHex(m) \/ IsOct(m)
IntVal(s) == LET m == Mag(s)
                 d == IF IsDec(m) THEN m ELSE IF IsHex(m) THEN DigitsOf(ValB(From(m, 3), 16)) ELSE DigitsOf(ValB(From(m, 2), 8))
             IN IF Neg(s) /\ d # <<48>> THEN <<45>> \o d ELSE d
\* decimal fractions, with an optional exponent; shown with six decimals
FirstAt(s, C) == CHOOSE i \in 1..(Len(s) + 1) : (i = Len(s) + 1 \/ s[i] \in C) /\ \A k \in 1..(i - 1) : s[k] \notin C
Mant(m) == SubSeq(m, 1, FirstAt(m, {101, 69}) - 1)
Exp(m) == LET i == FirstAt(m, {101, 69}) IN IF i > Len(m) THEN <<48>> ELSE From(m, i + 1)
IntPart(q) == SubSeq(q, 1, FirstAt(q, {46}) - 1)
FracPart(q) == LET i == FirstAt(q, {46}) IN IF i > Len(q) THEN <<>> ELSE From(q, i + 1)
IsFloat(s) == LET m == Mag(s) q == Mant(m) x == Exp(m) IN
              /\ All(IntPart(q), Digit) /\ All(FracPart(q), Digit) /\ Len(IntPart(q)) + Len(FracPart(q)) > 0
              /\ Mag(x) # <<>> /\ All(Mag(x), Digit)
FloatVal(s) == LET m == Mag(s) q == Mant(m) x == Exp(m)
                   sh == ValB(Mag(x), 10) * (IF Neg(x) THEN -1 ELSE 1)
                   ds == Zeros(9) \o IntPart(q) \o FracPart(q) \o Zeros(15)
                   pt == 9 + Len(IntPart(q)) + sh
               IN (IF Neg(s) THEN <<45>> ELSE <<>>) \o SkipWhile0(SubSeq(ds, 1, pt)) \o <<46>> \o SubSeq(ds, pt + 1, pt + 6)
\* s <= t for canonical decimal magnitudes
RECURSIVE LexLeq(_, _)
LexLeq(s, t) == s = <<>> \/ s[1] < t[1] \/ (s[1] = t[1] /\ LexLeq(From(s, 2), From(t, 2)))
MagLeq(s, t) == Len(s) < Len(t) \/ (Len(s) = Len(t) /\ LexLeq(s, t))
LONGMAX == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
LONGMIN == [LONGMAX EXCEPT ![19] = 56]
FitsLong(s) == MagLeq(Mag(s), IF Neg(s) THEN LONGMIN ELSE LONGMAX)
=============================================================================
