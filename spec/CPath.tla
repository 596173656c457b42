-------------------------------- MODULE CPath --------------------------------
(* Cutting strings at delimiters, and taking paths apart.  Calls are tuples <<operation, arguments...>>; strings are
   sequences of character codes; None in place of a string is no string.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MStr                              \* in models: the strings
VARIABLES act, out
vars == <<act, out>>
Min(a, b) == IF a < b THEN a ELSE b
In(c, set) == \E k \in 1..Len(set) : set[k] = c
SEP == 47
None == <<0>>
\* ------------------------------------------------------------------ cutting
RECURSIVE Words(_, _, _, _), Cuts(_, _, _, _), Heads(_, _, _), NoTail(_), NoLead(_), After(_, _)
Words(s, D, k, w) == IF k > Len(s) THEN (IF w = <<>> THEN <<>> ELSE <<w>>)
                     ELSE IF In(s[k], D) THEN (IF w = <<>> THEN <<>> ELSE <<w>>) \o Words(s, D, k + 1, <<>>)
                     ELSE Words(s, D, k + 1, Append(w, s[k]))
\* what follows each delimiter, up to the end; nothing for one at the very end
Cuts(s, d, keep, k) == IF k >= Len(s) THEN <<>>
                       ELSE (IF s[k] = d THEN <<SubSeq(s, IF keep THEN k ELSE k + 1, Len(s))>> ELSE <<>>) \o Cuts(s, d, keep, k + 1)
\* the string, one delimiter at its end aside, and what precedes each later delimiter, longest first
Heads(s, d, k) == IF k < 2 THEN <<>> ELSE (IF s[k] = d THEN <<SubSeq(s, 1, k - 1)>> ELSE <<>>) \o Heads(s, d, k - 1)
Tok(s, d) == LET t == IF s[Len(s)] = d THEN SubSeq(s, 1, Len(s) - 1) ELSE s IN <<t>> \o Heads(t, d, Len(t))
\* ------------------------------------------------------------------ paths
NoTail(s) == IF s # <<>> /\ s[Len(s)] = SEP THEN NoTail(SubSeq(s, 1, Len(s) - 1)) ELSE s
NoLead(s) == IF s # <<>> /\ s[1] = SEP THEN NoLead(Tail(s)) ELSE s
After(s, k) == IF k = 0 \/ s[k] = SEP THEN k + 1 ELSE After(s, k - 1)         \* where the last component begins
Name(s) == LET t == NoTail(s) IN IF t = <<>> THEN (IF s = <<>> THEN s ELSE <<SEP>>) ELSE SubSeq(t, After(t, Len(t)), Len(t))
EndsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
Base(s, x) == LET n == Name(s) IN IF x # None /\ EndsWith(n, x) /\ Len(n) > Len(x) THEN SubSeq(n, 1, Len(n) - Len(x)) ELSE n
Dir(s) == LET t == NoTail(s)
              a == IF t = <<>> THEN 0 ELSE After(t, Len(t))
              d == NoTail(SubSeq(t, 1, a - 1))
          IN IF s = <<>> THEN <<46>> ELSE IF t = <<>> THEN <<SEP>> ELSE IF a = 1 THEN <<46>> ELSE IF d = <<>> THEN <<SEP>> ELSE d
Joined(a, b) == NoTail(a) \o <<SEP>> \o NoLead(b)
Absolute(s) == (s # <<>> /\ s[1] = SEP) \/ (Len(s) > 1 /\ s[1] = 46 /\ s[2] = SEP)
\* ------------------------------------------------------------------ calls
Result(a) == LET s == a[2] IN
    CASE a[1] = "split" -> IF s = None \/ a[3] = None THEN <<None>> ELSE Words(s, a[3], 1, <<>>)
      [] a[1] = "cut" -> Cuts(s, a[3], a[4] # 0, 1)
      [] a[1] = "tok" -> Tok(s, a[3])
      [] a[1] = "base" -> SubSeq(Base(s, a[3]), 1, Min(a[4], Len(Base(s, a[3]))))
      [] a[1] = "dir" -> SubSeq(Dir(s), 1, Min(a[3], Len(Dir(s))))
      [] a[1] = "append" -> Joined(s, a[3])
      [] a[1] = "abs" -> Absolute(s)
\* cutting nothing yields nothing, or one empty piece
Do(a) == act' = a /\ (IF a[1] = "tok" /\ a[2] = <<>> THEN out' \in {<<>>, <<<<>>>>} ELSE out' = Result(a))
Init == act = <<"start">> /\ out = 0
\* ------------------------------------------------------------------ model: every call over small strings
Split == act[1] = "start" /\ \E s \in MStr, D \in {<<>>, <<47>>, <<46>>, <<46, 47>>, <<97>>} : Do(<<"split", s, D>>)
SplitNone == act[1] = "start" /\ \E a \in {<<"split", None, <<47>>>>, <<"split", <<97>>, None>>, <<"split", None, None>>} : Do(a)
Cut == act[1] = "start" /\ \E s \in MStr, d \in {47, 97}, k \in {0, 1, 2} : Do(<<"cut", s, d, k>>)
Token == act[1] = "start" /\ \E s \in MStr, d \in {47, 97} : Do(<<"tok", s, d>>)
BaseOf == act[1] = "start" /\ \E s \in MStr, x \in {None, <<>>, <<97>>, <<46, 97>>, <<47>>}, n \in {2, 16} : Do(<<"base", s, x, n>>)
DirOf == act[1] = "start" /\ \E s \in MStr, n \in {1, 16} : Do(<<"dir", s, n>>)
Join == act[1] = "start" /\ \E s \in MStr, t \in {x \in MStr : Len(x) < 4} : s # <<>> /\ Do(<<"append", s, t>>)
Abs == act[1] = "start" /\ \E s \in MStr : Do(<<"abs", s>>)
Next == Split \/ SplitNone \/ Cut \/ Token \/ BaseOf \/ DirOf \/ Join \/ Abs
Spec == Init /\ [][Next]_vars
GView == 0
Emit == PrintT("@T" \o ToJson([f |-> "0", a |-> act', t |-> "0", i |-> TRUE]))
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
MStrSmall == Strings({47, 46, 97}, 5)
MStrGraph == Strings({47, 46, 97}, 3) \union Strings({47, 97}, 4)
MStrBig == Strings({47, 46, 97}, 7)
RECURSIVE Count(_, _), Total(_)
Count(s, d) == IF s = <<>> THEN 0 ELSE (IF s[1] = d THEN 1 ELSE 0) + Count(Tail(s), d)
Total(q) == IF q = <<>> THEN 0 ELSE Len(q[1]) + Total(Tail(q))
\* ------------------------------------------------------------------ what users rely on, said differently
Laws ==
    CASE act[1] = "split" /\ out # <<None>> -> /\ \A k \in 1..Len(out) : out[k] # <<>> /\ \A x \in 1..Len(out[k]) : ~In(out[k][x], act[3])
                                         /\ Total(out) = Cardinality({k \in 1..Len(act[2]) : ~In(act[2][k], act[3])})
      [] act[1] = "cut" -> /\ \A k \in 1..Len(out) : EndsWith(act[2], out[k])
                           /\ Len(out) = Count(act[2], act[3]) - (IF act[2] # <<>> /\ act[2][Len(act[2])] = act[3] THEN 1 ELSE 0)
      [] act[1] = "dir" /\ act[3] = 16 -> /\ out # <<>> /\ (Len(out) > 1 => out[Len(out)] # SEP)
                                          \* directory and name together are the path again
                                          /\ LET s == act[2] IN s # <<>> /\ NoTail(s) # <<>> /\ In(SEP, NoTail(s)) => EndsWith(NoTail(s), <<SEP>> \o Name(s))
                                          /\ (act[2] # <<>> /\ act[2][1] = SEP) = (out[1] = SEP)
      [] act[1] = "base" /\ act[4] = 16 -> /\ (out # <<SEP>> => ~In(SEP, out)) /\ ((out = <<>>) = (act[2] = <<>>))
      [] act[1] = "append" -> /\ Name(act[3]) \in {<<>>, <<SEP>>} \/ Name(out) = Name(act[3])
      [] OTHER -> TRUE
=============================================================================
