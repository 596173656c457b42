-------------------------------- MODULE Hash --------------------------------
(* Hashing piece by piece: a context holds the message so far; its digest is the SHA-1 of the whole message, however it
   was cut, and whatever else is hashed at the same time.  Hashing leaves the caller's data alone.  Digests have a
   text form of 40 hexadecimal digits and back.                                                                    *)
EXTENDS Sha1, Num, FiniteSets, TLC, Json
CONSTANTS NC, Pieces, MLen                  \* contexts; sizes of pieces and their number, in models
VARIABLES ctx, act, out
vars == <<ctx, act, out>>
None == <<-1>>
HexC(h) == IF h < 10 THEN 48 + h ELSE 87 + h
HexText(b) == [i \in 1..2 * Len(b) |-> LET x == b[((i - 1) \div 2) + 1] IN HexC(IF i % 2 = 1 THEN x \div 16 ELSE x % 16)]
FromHex(s) == [i \in 1..(Len(s) \div 2) |-> (16 * HexVal(s[(2 * i) - 1])) + HexVal(s[2 * i])]
\* a context fed 2^29 zero bytes (their state is ZH, after a whole number of blocks) and more after: the length needs more than 32 bits
Many == 256
Huge == 257         \* and one fed 2^32, all but two of them at once
ZG == <<<<54992, 52432>>, <<29564, 18253>>, <<12569, 52416>>, <<53608, 57108>>, <<15652, 21438>>>>
ZH == <<<<14313, 13142>>, <<19099, 12623>>, <<44892, 25246>>, <<21905, 41001>>, <<21788, 34759>>>>
BigPad(n, top) == LET p == SPad(n) IN SubSeq(p, 1, Len(p) - 5) \o <<top>> \o SubSeq(p, Len(p) - 3, Len(p))
FeedMany(c) == ctx[c] = <<>> /\ ctx' = [ctx EXCEPT ![c] = <<Many>>] /\ out' = 0 /\ act' = <<"many", c>>
FeedHuge(c) == ctx[c] = <<>> /\ ctx' = [ctx EXCEPT ![c] = <<Huge>>] /\ out' = 0 /\ act' = <<"huge", c>>
DigestOf(m) == IF m # <<>> /\ m[1] = Many THEN SBytes(SBlocks(ZH, Tail(m) \o BigPad(Len(m) - 1, 1), 1))
               ELSE IF m # <<>> /\ m[1] = Huge THEN SBytes(SBlocks(ZG, Tail(m) \o BigPad(Len(m) - 1, 8), 1)) ELSE Sha1Of(m)
Start(c) == ctx' = [ctx EXCEPT ![c] = <<>>] /\ out' = 0 /\ act' = <<"init", c>>
Feed(c, b) == /\ ctx[c] # None /\ ctx' = [ctx EXCEPT ![c] = @ \o b] /\ out' = b /\ act' = <<"update", c, b>>
Finish(c) == /\ ctx[c] # None /\ out' = DigestOf(ctx[c]) /\ ctx' = [ctx EXCEPT ![c] = None] /\ act' = <<"final", c>>
Whole(b) == out' = <<Sha1Of(b), b>> /\ UNCHANGED ctx /\ act' = <<"data", b>>
ToText(d) == out' = HexText(d) \o <<0>> /\ UNCHANGED ctx /\ act' = <<"tostr", d>>
OfText(s) == out' = FromHex(s) /\ UNCHANGED ctx /\ act' = <<"tosha", s>>

\* ------------------------------------------------------------------ model: the buffered algorithm
Init == ctx = [c \in 1..NC |-> None] /\ act = <<"start">> /\ out = 0
VARIABLES h, buf, cnt, steps                \* running state, bytes not hashed yet, length, pieces fed
ivars == <<vars, h, buf, cnt, steps>>
Byte(i) == (i * 37 + 11) % 256
Piece(n, k) == [i \in 1..k |-> Byte(n + i)]
RECURSIVE Eat(_, _)
Eat(s, b) == IF Len(b) < 64 THEN <<s, b>> ELSE Eat(SBlock(s, b, 1), SubSeq(b, 65, Len(b)))
IInit == Init /\ h = SH0 /\ buf = <<>> /\ cnt = 0 /\ steps = 0
IStart == act[1] = "start" /\ Start(1) /\ UNCHANGED <<h, buf, cnt, steps>>
IFeed(k) == /\ steps < MLen /\ Feed(1, Piece(cnt, k)) /\ steps' = steps + 1 /\ cnt' = cnt + k
            /\ LET x == Eat(h, buf \o Piece(cnt, k)) IN h' = x[1] /\ buf' = x[2]
IFinish == Finish(1) /\ LET x == Eat(h, buf \o SPad(cnt)) IN /\ Assert(x[2] = <<>> /\ SBytes(x[1]) = out', "buffered algorithm differs")
                                                            /\ UNCHANGED <<h, buf, cnt, steps>>
INext == IStart \/ IFinish \/ \E k \in Pieces : IFeed(k)
ISpec == IInit /\ [][INext]_ivars
IView == <<act[1] = "start", ctx[1] = None, h, buf, cnt, steps>>
Buffered == cnt % 64 = Len(buf)
ASSUME Sha1Of(<<97, 98, 99>>) = FromHex(<<97,57,57,57,51,101,51,54,52,55,48,54,56,49,54,97,98,97,51,101,50,53,55,49,55,56,53,48,99,50,54,99,57,99,100,48,100,56,57,100>>)
=============================================================================
