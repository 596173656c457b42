-------------------------------- MODULE CStr --------------------------------
(* String slices and searches.  A slice [i:j] of a string names the characters between two positions, both included,
   counted from 0, or back from the end when negative; a position past the end is the last one, positions in the wrong
   order are swapped, and an empty string has only the empty slice.  Calls are tuples <<operation, arguments...>>,
   strings are sequences of character codes; negative positions must lie within the string.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MStr, MIdx, MPat, MText           \* in models: strings sliced, positions, patterns and sets, whole texts
VARIABLES act, out
vars == <<act, out>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
\* ------------------------------------------------------------------ slices
At(s, i) == LET k == IF i < 0 THEN i + Len(s) ELSE i IN Min(k, Len(s) - 1)
Lo(s, i, j) == IF s = <<>> THEN 0 ELSE Min(At(s, i), At(s, j))
Hi(s, i, j) == IF s = <<>> THEN -1 ELSE Max(At(s, i), At(s, j))
Slice(s, i, j) == SubSeq(s, Lo(s, i, j) + 1, Hi(s, i, j) + 1)
Ok(s, i) == s = <<>> \/ i >= -Len(s)
RECURSIVE Times(_, _), Joined(_, _), Diff(_, _, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)
Joined(a, k) == IF k > Len(a) THEN <<>> ELSE Slice(a[k], a[k + 1], a[k + 2]) \o Joined(a, k + 3)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
In(c, set) == \E k \in 1..Len(set) : set[k] = c
Mapped(c, from, to) == IF In(c, from) THEN to[CHOOSE k \in 1..Len(from) : from[k] = c] ELSE c
Diff(a, b, k) == IF k > Len(a) THEN (IF k > Len(b) THEN 0 ELSE -1) ELSE IF k > Len(b) THEN 1
                 ELSE IF a[k] = b[k] THEN Diff(a, b, k + 1) ELSE IF a[k] < b[k] THEN -1 ELSE 1
\* ------------------------------------------------------------------ searches: the first or last position, from..to, with a property
RECURSIVE Up(_, _, _), Down(_, _, _)
Up(P(_), k, to) == IF k > to THEN -1 ELSE IF P(k) THEN k ELSE Up(P, k + 1, to)
Down(P(_), k, to) == IF k < to THEN -1 ELSE IF P(k) THEN k ELSE Down(P, k - 1, to)
IsAt(s, k, p) == k + Len(p) <= Len(s) /\ \A x \in 1..Len(p) : s[k + x] = p[x]
\* ------------------------------------------------------------------ ends
Blank == {32, 9}
Space == {32, 9, 10}
Lead(s, C) == Min(Len(s), LET k == Up(LAMBDA x : s[x + 1] \notin C, 0, Len(s) - 1) IN IF k < 0 THEN Len(s) ELSE k)
Trail(s, C) == Len(s) - 1 - Down(LAMBDA x : s[x + 1] \notin C, Len(s) - 1, 0)
Strip(s) == LET t == SubSeq(s, Lead(s, Blank) + 1, Len(s))
                n == Len(t) - Trail(t, Space)
            IN SubSeq(t, 1, n) \o (IF In(10, SubSeq(t, n + 1, Len(t))) THEN <<10>> ELSE <<>>)
SetOf(s) == {s[k] : k \in 1..Len(s)}
\* ------------------------------------------------------------------ calls
Result(a) ==
    LET s == a[2]
        lo == Lo(s, a[3], a[4])
        hi == Hi(s, a[3], a[4])
        sl == Slice(s, a[3], a[4])
    IN CASE a[1] = "sub" -> sl
         [] a[1] = "dup" -> Times(sl, a[5])
         [] a[1] = "cat" -> sl \o Slice(a[5], a[6], a[7])
         [] a[1] = "catv" -> Joined(a, 2)
         [] a[1] = "rev" -> Rev(sl)
         [] a[1] = "map" -> [k \in 1..Len(sl) |-> Mapped(sl[k], a[5], a[6])]
         [] a[1] = "pos" -> At(s, a[3])
         [] a[1] = "len" -> Len(sl)
         [] a[1] = "cmp" -> Diff(sl, Slice(a[5], a[6], a[7]), 1)
         \* where a character is: 0 also if it is nowhere
         [] a[1] = "chr" -> Max(0, Up(LAMBDA k : s[k + 1] = a[5], lo, hi))
         [] a[1] = "rchr" -> Max(0, Down(LAMBDA k : s[k + 1] = a[5], hi, lo))
         [] a[1] \in {"upto", "any"} -> Up(LAMBDA k : In(s[k + 1], a[5]), lo, hi)
         [] a[1] \in {"rupto", "rany"} -> Down(LAMBDA k : In(s[k + 1], a[5]), hi, lo)
         [] a[1] = "find" -> IF a[5] = <<>> THEN -1 ELSE Up(LAMBDA k : IsAt(s, k, a[5]), lo, hi + 1 - Len(a[5]))
         [] a[1] = "rfind" -> IF a[5] = <<>> THEN -1 ELSE Down(LAMBDA k : IsAt(s, k, a[5]), hi + 1 - Len(a[5]), lo)
         [] a[1] = "copy" -> LET n == Min(Len(sl), a[5]) IN <<n, SubSeq(sl, 1, n)>>
         [] a[1] = "chomp" -> IF s # <<>> /\ s[Len(s)] = 10 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
         [] a[1] = "strip" -> Strip(s)
         [] a[1] = "rspn" -> Trail(s, SetOf(a[3]))
         [] a[1] = "rcspn" -> LET k == Down(LAMBDA x : In(s[x + 1], a[3]), Len(s) - 1, 0) IN IF k < 0 THEN Len(s) ELSE k
Do(a) == act' = a /\ out' = Result(a)
Init == act = <<"start">> /\ out = 0
\* ------------------------------------------------------------------ model: every call over small strings
Slices == {<<s, i, j>> \in MStr \X MIdx \X MIdx : Ok(s, i) /\ Ok(s, j)}
Whole == {<<s, 0, -1>> : s \in MStr} \union {<<s, 1, -1>> : s \in MStr}
C1(op, X) == {<<op>> \o x \o y : x \in Slices, y \in X}
Sub == act[1] = "start" /\ \E op \in {"sub", "rev", "len"}, x \in Slices : Do(<<op>> \o x)
Dup == act[1] = "start" /\ \E x \in Slices, n \in 0..2 : Do(<<"dup">> \o x \o <<n>>)
Copy == act[1] = "start" /\ \E x \in Slices, n \in 0..3 : Do(<<"copy">> \o x \o <<n>>)
Cat == act[1] = "start" /\ \E x \in Slices, y \in Whole, op \in {"cat", "catv", "cmp"} : Do(<<op>> \o x \o y)
CatTwo == act[1] = "start" /\ \E x, y, z \in Whole : Do(<<"catv">> \o x \o y \o z)
Map == act[1] = "start" /\ \E x \in Slices : Do(<<"map">> \o x \o <<<<97, 98>>, <<98, 97>>>>)
Pos == act[1] = "start" /\ \E s \in MStr \ {<<>>}, i \in MIdx : Ok(s, i) /\ Do(<<"pos", s, i>>)
Chr == act[1] = "start" /\ \E op \in {"chr", "rchr"}, x \in Slices, ch \in {97, 98, 99} : Do(<<op>> \o x \o <<ch>>)
Search == act[1] = "start" /\ \E op \in {"upto", "any", "rupto", "rany", "find", "rfind"}, x \in Slices, p \in MPat : Do(<<op>> \o x \o <<p>>)
Ends == act[1] = "start" /\ \E op \in {"chomp", "strip"}, s \in MText : Do(<<op, s>>)
Spans == act[1] = "start" /\ \E op \in {"rspn", "rcspn"}, s \in MText, p \in {<<>>, <<32>>, <<10, 97>>, <<97>>} : Do(<<op, s, p>>)
Next == Sub \/ Dup \/ Copy \/ Cat \/ CatTwo \/ Map \/ Pos \/ Chr \/ Search \/ Ends \/ Spans
Spec == Init /\ [][Next]_vars
GView == 0
Emit == PrintT("@T" \o ToJson([f |-> "0", a |-> act', t |-> "0", i |-> TRUE]))
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
MStrSmall == Strings({97, 98}, 3)  MIdxSmall == -3..3  MPatSmall == Strings({97, 98}, 2)  MTextSmall == Strings({97, 32, 10}, 4)
MStrGraph == Strings({97, 98}, 2)  MIdxGraph == {-2, -1, 0, 1, 2}  MPatGraph == Strings({97, 98}, 2)  MTextGraph == Strings({97, 32, 10}, 3)
MStrBig == Strings({97, 98}, 4)  MIdxBig == -4..5  MPatBig == Strings({97, 98}, 3)  MTextBig == Strings({97, 32, 10, 9}, 5)
\* ------------------------------------------------------------------ what users rely on, said differently
Here(s, i, j) == Lo(s, i, j)..Hi(s, i, j)
Laws ==
    CASE act[1] \in {"sub", "rev"} -> /\ Len(out) = Cardinality(Here(act[2], act[3], act[4]))
                                      /\ act[1] = "sub" => Result(<<"rev">> \o Tail(act)) = Rev(out)
                                      /\ \A k \in 1..Len(out) : In(out[k], act[2])
      [] act[1] = "cmp" -> /\ (out = 0) = (Slice(act[2], act[3], act[4]) = Slice(act[5], act[6], act[7]))
                           /\ out = -Diff(Slice(act[5], act[6], act[7]), Slice(act[2], act[3], act[4]), 1)
      [] act[1] \in {"find", "rfind"} ->
            LET hits == {k \in Here(act[2], act[3], act[4]) : act[5] # <<>> /\ k + Len(act[5]) - 1 \in Here(act[2], act[3], act[4])
                                                                /\ SubSeq(act[2], k + 1, k + Len(act[5])) = act[5]}
            IN IF hits = {} THEN out = -1 ELSE out \in hits /\ \A k \in hits : IF act[1] = "find" THEN k >= out ELSE k <= out
      [] act[1] \in {"upto", "rupto"} ->
            LET hits == {k \in Here(act[2], act[3], act[4]) : \E x \in 1..Len(act[5]) : act[2][k + 1] = act[5][x]}
            IN IF hits = {} THEN out = -1 ELSE out \in hits /\ \A k \in hits : IF act[1] = "upto" THEN k >= out ELSE k <= out
      [] act[1] = "strip" -> /\ Len(out) <= Len(act[2]) /\ Strip(out) = out
                             /\ (out # <<>> => out[1] \notin Blank)
                             /\ Len(out) > 1 => /\ out[Len(out)] \notin Blank
                                                /\ (out[Len(out)] = 10 => out[Len(out) - 1] \notin Space \/ (\A k \in 1..Len(out) : out[k] \in Space))
      [] act[1] = "rspn" -> /\ \A k \in 1..out : In(act[2][Len(act[2]) + 1 - k], act[3])
                            /\ out < Len(act[2]) => ~In(act[2][Len(act[2]) - out], act[3])
      [] OTHER -> TRUE
=============================================================================
