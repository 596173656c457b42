------------------------------- MODULE Word32 -------------------------------
(* 32-bit words as pairs of 16-bit halves <<high, low>>: TLC's integers are too small for them. *)
EXTENDS Integers, Sequences, Bitwise
H == 65536
W2 == [i \in 0..16 |-> 2 ^ i]
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WOr(a, b) == <<a[1] | b[1], a[2] | b[2]>>
WNot(a) == <<H - 1 - a[1], H - 1 - a[2]>>
WAdd(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + l \div H) % H, l % H>>
WSub(a, b) == LET l == a[2] - b[2] IN <<(a[1] - b[1] - (IF l < 0 THEN 1 ELSE 0) + 2 * H) % H, (l + H) % H>>
Swap(a) == <<a[2], a[1]>>
\* shifts and rotation by k in 0..15, or more
ShlS(a, k) == <<((a[1] % W2[16 - k]) * W2[k]) + (a[2] \div W2[16 - k]), (a[2] % W2[16 - k]) * W2[k]>>
ShrS(a, k) == <<a[1] \div W2[k], ((a[1] % W2[k]) * W2[16 - k]) + (a[2] \div W2[k])>>
WShl(a, k) == IF k >= 16 THEN ShlS(<<a[2], 0>>, k - 16) ELSE ShlS(a, k)
WShr(a, k) == IF k >= 16 THEN ShrS(<<0, a[1]>>, k - 16) ELSE ShrS(a, k)
WRol(a, k) == LET b == IF k >= 16 THEN Swap(a) ELSE a  j == k % 16
              IN <<((b[1] % W2[16 - j]) * W2[j]) + (b[2] \div W2[16 - j]), ((b[2] % W2[16 - j]) * W2[j]) + (b[1] \div W2[16 - j])>>
\* product of two halves as a word, product of words modulo 2^32
HMul(a, b) == LET p == a * (b % 256)  q == a * (b \div 256)  l == ((q % 256) * 256) + p IN <<(q \div 256) + (l \div H), l % H>>
WMul(a, b) == LET p == HMul(a[2], b[2]) IN <<(p[1] + HMul(a[1], b[2])[2] + HMul(a[2], b[1])[2]) % H, p[2]>>
WNum(n) == <<n \div H, n % H>>                \* a small number as a word
WBytes(a) == <<a[1] \div 256, a[1] % 256, a[2] \div 256, a[2] % 256>>       \* big end first
WOfBytes(b, i) == <<(b[i] * 256) + b[i + 1], (b[i + 2] * 256) + b[i + 3]>>
=============================================================================
