-------------------------------- MODULE Sha1 --------------------------------
(* SHA-1 (FIPS 180-4) over sequences of bytes. *)
EXTENDS Word32
SK == <<<<23170, 31129>>, <<28377, 60321>>, <<36635, 48348>>, <<51810, 49622>>>>
SH0 == <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>>>>
SF(t, b, c, d) == CASE t <= 20 -> WXor(WAnd(WXor(c, d), b), d)
                    [] t <= 40 \/ t > 60 -> WXor(WXor(b, c), d)
                    [] OTHER -> WOr(WAnd(WOr(b, c), d), WAnd(b, c))
RECURSIVE SSched(_), SRound(_, _, _), SBlocks(_, _, _)
SSched(w) == IF Len(w) = 80 THEN w
             ELSE LET n == Len(w) IN SSched(Append(w, WRol(WXor(WXor(w[n - 2], w[n - 7]), WXor(w[n - 13], w[n - 15])), 1)))
SRound(t, s, w) == IF t > 80 THEN s
                   ELSE SRound(t + 1, <<WAdd(WAdd(WAdd(WRol(s[1], 5), SF(t, s[2], s[3], s[4])), WAdd(s[5], w[t])), SK[((t - 1) \div 20) + 1]),
                                        s[1], WRol(s[2], 30), s[3], s[4]>>, w)
SBlock(s, m, at) == LET r == SRound(1, s, SSched([i \in 1..16 |-> WOfBytes(m, at + (4 * (i - 1)))]))
                    IN [i \in 1..5 |-> WAdd(s[i], r[i])]
SBlocks(s, m, at) == IF at > Len(m) THEN s ELSE SBlocks(SBlock(s, m, at), m, at + 64)
\* one bit, zeros up to eight bytes short of a block, the length in bits (messages here are shorter than 2^28 bytes)
SPad(n) == <<128>> \o [i \in 1..((119 - (n % 64)) % 64) |-> 0] \o <<0, 0, 0, 0>> \o WBytes(<<(n * 8) \div H, (n * 8) % H>>)
SBytes(s) == WBytes(s[1]) \o WBytes(s[2]) \o WBytes(s[3]) \o WBytes(s[4]) \o WBytes(s[5])
Sha1Of(m) == SBytes(SBlocks(SH0, m \o SPad(Len(m)), 1))
=============================================================================
