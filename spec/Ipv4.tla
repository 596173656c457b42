-------------------------------- MODULE Ipv4 --------------------------------
(* IPv4 network tables.  A network is the sequence of its leading bits; one contains another when it is a prefix
   of it.  A table is the list of the networks added, each known by a token.  A search answers with a network of
   this table that contains the one asked for, and with none only if there is none.  A table that holds the network
   of all addresses answers every search and every further addition with it.                                      *)
EXTENDS Num, FiniteSets, TLC, Json
CONSTANTS W, NT, MaxNet                    \* address bits, tables, bound for models
VARIABLES tb, n, act, out
vars == <<tb, n, act, out>>
Down == [up |-> FALSE, m |-> <<>>]
Prefixes == UNION {[1..k -> {0, 1}] : k \in 0..W}
Covers(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Toks(t, P(_)) == {tb[t].m[i][1] : i \in {j \in 1..Len(tb[t].m) : P(tb[t].m[j][2])}}
AllOf(t) == Toks(t, LAMBDA p : p = <<>>)
Hits(t, q) == Toks(t, LAMBDA p : Covers(p, q))
Bad == <<2>>                               \* text that is no network

InitT(t) == /\ ~tb[t].up /\ tb' = [tb EXCEPT ![t] = [up |-> TRUE, m |-> <<>>]] /\ out' = 1 /\ UNCHANGED n
            /\ act' = <<"init", t>>
Destroy(t) == /\ tb[t].up /\ tb' = [tb EXCEPT ![t] = Down] /\ out' = 0 /\ UNCHANGED n /\ act' = <<"destroy", t>>
Put(t, p) == /\ tb' = [tb EXCEPT ![t].m = Append(@, <<n + 1, p>>)] /\ n' = n + 1
Add(t, p) == /\ tb[t].up /\ act' = <<"add", t, p>>
             /\ IF AllOf(t) # {} THEN out' \in AllOf(t) /\ UNCHANGED <<tb, n>>
                ELSE IF p = Bad THEN out' = 0 /\ UNCHANGED <<tb, n>>
                ELSE Put(t, p) /\ out' = n + 1
\* a node made by the caller; elements come from the one table there is
Alone(t) == tb[t].up /\ \A i \in 1..NT : tb[i].up => i = t
AddNode(t, p) == /\ Alone(t) /\ act' = <<"addnode", t, p>>
                 /\ IF p = Bad THEN out' = 0 /\ UNCHANGED <<tb, n>> ELSE Put(t, p) /\ out' = n + 1
Search(t, q) == /\ tb[t].up /\ act' = <<"search", t, q>> /\ UNCHANGED <<tb, n>>
                /\ IF q = Bad \/ Hits(t, q) = {} THEN out' = 0 ELSE out' \in Hits(t, q)
\* any number of searches: no memory kept
Lookups(t, q, k) == /\ tb[t].up /\ act' = <<"lookups", t, q, k>> /\ UNCHANGED <<tb, n>> /\ out' = 1

\* ------------------------------------------------------------------ text
Dot == 46
Slash == 47
RECURSIVE Split(_, _)
Split(s, c) == LET i == FirstAt(s, {c}) IN IF i > Len(s) THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(From(s, i + 1), c)
IsOctet(s) == Len(s) \in 1..3 /\ IsDec(s) /\ ValB(s, 10) < 256
Host(s) == SubSeq(s, 1, FirstAt(s, {Slash}) - 1)
HasLen(s) == FirstAt(s, {Slash}) <= Len(s)
LenText(s) == From(s, FirstAt(s, {Slash}) + 1)
Octets(h) == LET q == Split(h, Dot) IN [i \in 1..Len(q) |-> ValB(q[i], 10)]
\* text everybody agrees is an address, and text nobody takes for one; the rest (octal, hexadecimal, missing parts) is open
GoodHost(h) == Len(Split(h, Dot)) = 4 /\ \A i \in 1..4 : IsOctet(Split(h, Dot)[i])
BadHost(h) == h = <<>> \/ (\E i \in 1..Len(h) : HexVal(h[i]) > 15 /\ h[i] \notin {46, 120, 88}) \/ Len(Split(h, Dot)) > 4
              \/ \E i \in 1..Len(Split(h, Dot)) : LET q == Split(h, Dot)[i] IN q = <<>> \/ ~Digit(q[1]) \/ (IsDec(q) /\ Len(q) < 9 /\ Len(Split(h, Dot)) = 4 /\ ValB(q, 10) > 255)
GoodLen(b) == b # <<>> /\ All(b, Digit) /\ Len(b) < 9
BadLen(b) == ~All(b, Digit) \/ b = <<>>
Good(s) == GoodHost(Host(s)) /\ (HasLen(s) => GoodLen(LenText(s)))
Refused(s) == BadHost(Host(s)) \/ (HasLen(s) /\ BadLen(LenText(s)))
BitLen(s) == IF ~HasLen(s) THEN 32 ELSE LET v == ValB(LenText(s), 10) IN IF v > 32 THEN 32 ELSE v
BitOf(x, k) == (x \div (2 ^ (8 - k))) % 2          \* k-th from the left, 1..8
Bits(o) == [i \in 1..32 |-> BitOf(o[(i - 1) \div 8 + 1], ((i - 1) % 8) + 1)]
NetOf(s) == IF Good(s) THEN SubSeq(Bits(Octets(Host(s))), 1, BitLen(s)) ELSE Bad
Fill(p, b) == [i \in 1..32 |-> IF i <= Len(p) THEN p[i] ELSE b]
OctetAt(q, k) == q[8*k+1]*128 + q[8*k+2]*64 + q[8*k+3]*32 + q[8*k+4]*16 + q[8*k+5]*8 + q[8*k+6]*4 + q[8*k+7]*2 + q[8*k+8]
Pack(q) == [k \in 1..4 |-> OctetAt(q, k - 1)]
Ones(k) == [i \in 1..k |-> 1]
Fields(p) == <<Len(p), Pack(Fill(p, 0)), Pack(Fill(Ones(Len(p)), 0)), Pack(Fill(p, 1))>>
Dotted(o) == DigitsOf(o[1]) \o <<Dot>> \o DigitsOf(o[2]) \o <<Dot>> \o DigitsOf(o[3]) \o <<Dot>> \o DigitsOf(o[4])

\* ------------------------------------------------------------------ model
Init == tb = [t \in 1..NT |-> Down] /\ n = 0 /\ act = <<"start">> /\ out = 0
Next == \E t \in 1..NT :
           \/ InitT(t) \/ Destroy(t)
           \/ \E p \in Prefixes \cup {Bad} :
                \/ (Len(tb[t].m) < MaxNet /\ Add(t, p))
                \/ (Len(tb[t].m) < MaxNet /\ AddNode(t, p))
                \/ Search(t, p)
Spec == Init /\ [][Next]_vars
Norm == [t \in 1..NT |-> [up |-> tb[t].up, m |-> [i \in 1..Len(tb[t].m) |-> tb[t].m[i][2]]]]
View == Norm
\* what a search finds contains what was asked for, and an address covered is found
Answer == [][act'[1] = "search" => LET t == act'[2] q == act'[3] IN
              /\ (out' = 0) = (q = Bad \/ ~\E i \in 1..Len(tb[t].m) : Covers(tb[t].m[i][2], q))
              /\ out' # 0 => \E i \in 1..Len(tb[t].m) : tb[t].m[i][1] = out' /\ Covers(tb[t].m[i][2], q)]_vars
Disjoint == \A t, u \in 1..NT : t # u => {tb[t].m[i][1] : i \in 1..Len(tb[t].m)} \cap {tb[u].m[i][1] : i \in 1..Len(tb[u].m)} = {}
Emit == PrintT("@T" \o ToJson([f |-> ToString(View), a |-> act', t |-> ToString(View'), i |-> TLCGet("level") = 1]))
=============================================================================
