-------------------------------- MODULE Big --------------------------------
(* Numbers of any size: <<negative, magnitude>>, a magnitude being its bytes, little end first, no zero on top. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Idx(n) == [k \in 1..n |-> k]
\* ------------------------------------------------------------------ magnitudes
RECURSIVE Norm(_)
Norm(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN Norm(SubSeq(m, 1, Len(m) - 1)) ELSE m
D(m, k) == IF k <= Len(m) THEN m[k] ELSE 0
MaxOf(a, b) == IF a > b THEN a ELSE b
AddM(a, b) == Norm(LET z == FoldLeft(LAMBDA y, k : LET t == D(a, k) + D(b, k) + y[2] IN <<Append(y[1], t % 256), t \div 256>>, <<<<>>, 0>>, Idx(MaxOf(Len(a), Len(b)))) IN Append(z[1], z[2]))
SubM(a, b) == Norm(FoldLeft(LAMBDA y, k : LET t == D(a, k) - D(b, k) - y[2] IN <<Append(y[1], (t + 512) % 256), IF t < 0 THEN 1 ELSE 0>>, <<<<>>, 0>>, Idx(Len(a)))[1])
RECURSIVE LessAt(_, _, _)
LessAt(a, b, k) == IF k = 0 THEN FALSE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LessAt(a, b, k - 1)
LessM(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessAt(a, b, Len(a))       \* both normal
MulD(a, d) == Norm(LET z == FoldLeft(LAMBDA y, k : LET t == (a[k] * d) + y[2] IN <<Append(y[1], t % 256), t \div 256>>, <<<<>>, 0>>, Idx(Len(a))) IN Append(z[1], z[2]))
ShiftM(a, k) == IF a = <<>> THEN a ELSE [i \in 1..k |-> 0] \o a
MulM(a, b) == FoldLeft(LAMBDA y, k : AddM(y, ShiftM(MulD(a, b[k]), k - 1)), <<>>, Idx(Len(b)))
\* quotient digits from the top: the greatest digit that still fits
DivM(a, b) == Norm(FoldLeft(LAMBDA y, k : LET r == Norm(<<a[Len(a) + 1 - k]>> \o y[2])
                                               d == CHOOSE d \in 0..255 : ~LessM(r, MulD(b, d)) /\ LessM(r, MulD(b, d + 1))
                                           IN <<<<d>> \o y[1], SubM(r, MulD(b, d))>>, <<<<>>, <<>>>>, Idx(Len(a)))[1])
\* ------------------------------------------------------------------ numbers
Num(n, m) == <<n /\ m # <<>>, m>>
Plus(x, y) == IF x[1] = y[1] THEN Num(x[1], AddM(x[2], y[2]))
              ELSE IF LessM(x[2], y[2]) THEN Num(y[1], SubM(y[2], x[2])) ELSE Num(x[1], SubM(x[2], y[2]))
Minus(x, y) == Plus(x, Num(~y[1], y[2]))
Times(x, y) == Num(x[1] # y[1], MulM(x[2], y[2]))
Over(x, y) == Num(x[1] # y[1], DivM(x[2], y[2]))              \* towards zero
\* a number as a sign and eight bytes, big end first
Of(t) == Num(t[1] = 1, Norm([k \in 1..8 |-> t[10 - k]]))
Bytes(z) == <<IF z[1] THEN 1 ELSE 0>> \o [k \in 1..8 |-> D(z[2], 9 - k)]
Less(x, y) == IF x[1] # y[1] THEN x[1] ELSE IF x[1] THEN LessM(y[2], x[2]) ELSE LessM(x[2], y[2])
RECURSIVE MagOf(_)
MagOf(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o MagOf(n \div 256)
Int2Big(n) == IF n < 0 THEN Num(TRUE, MagOf(-n)) ELSE Num(FALSE, MagOf(n))
=============================================================================
