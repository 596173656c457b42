-------------------------------- MODULE Sure --------------------------------
(* Assertions, and memory that is there or ends the program.  Calls are tuples <<operation, arguments...>>; what comes of one is
   <<"ok", ...>>, <<"left", ...>> when the function is left early, or <<"abort", ...>>, with the lines that were logged. Text is
   a sequence of character codes; <<0>> is none.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MSizes, MNums
VARIABLES act, out
vars == <<act, out>>
None == <<0>>
RECURSIVE Digits(_), After(_, _)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
After(s, k) == IF k = 0 THEN s ELSE IF s[k] = 47 THEN SubSeq(s, k + 1, Len(s)) ELSE After(s, k - 1)
Error == <<69,114,114,111,114,58,32>>                                             \* "Error: "
Critical == <<67,114,105,116,105,99,97,108,58,32>>
Failed == <<65,115,115,101,114,116,105,111,110,32,70,97,105,108,101,100,58,32>>     \* "Assertion Failed: "
Exiting == <<69,120,105,116,105,110,103,58,32>>
NoCond == <<110,111,32,97,115,115,101,114,116,105,111,110,32,103,105,118,101,110>>     \* "no assertion given"
NoMsg == <<110,111,32,109,101,115,115,97,103,101,32,103,105,118,101,110>>              \* "no message given"
\* "cond": file[line:function]
Place(cond, file, line, fn) == <<34>> \o cond \o <<34, 58, 32>> \o After(file, Len(file)) \o <<91>> \o Digits(line)
                               \o (IF fn = None THEN <<>> ELSE <<58>> \o fn) \o <<93, 10>>
Said(cond, file, line, fn) == Error \o Failed \o Place(IF cond = None THEN NoCond ELSE cond, file, line, fn)
Cried(msg, file, line, fn) == Critical \o Exiting \o Place(IF msg = None THEN NoMsg ELSE msg, file, line, fn)
\* ------------------------------------------------------------------ assertions
Kinds == {"assert", "nf", "always", "return", "returnV"}
Compiled(kind, mode) == mode = "on" \/ kind \notin {"assert", "nf", "enable"}
\* <<what comes of it, how often the condition was evaluated, what was logged>>
Assert_(kind, mode, holds, cond, file, line, fn) ==
    IF ~Compiled(kind, mode) THEN <<"ok", 0, <<>>>>
    ELSE IF holds = 1 THEN <<"ok", 1, <<>>>>
    ELSE <<CASE kind \in {"assert", "always"} -> "abort" [] kind = "nf" -> "ok" [] OTHER -> "left", 1, Said(cond, file, line, fn)>>
\* ------------------------------------------------------------------ memory
\* num things of a size; over: so many more that the whole is more than there can be; refused: the system has no more
\* <<"ok", room>>, the old content kept, new memory cleared when asked
Alloc(kind, size, num, over, refused, old) ==
    IF over = 1 \/ refused = 1 THEN <<"abort", 0, FALSE>>
    ELSE <<"ok", size * num, TRUE>>
Result(a) == CASE a[1] = "said" -> Said(a[2], a[3], a[4], a[5])
               [] a[1] = "cried" -> Cried(a[2], a[3], a[4], a[5])
               [] a[1] = "assert" -> Assert_(a[2], a[3], a[4], a[5], a[6], a[7], a[8])
               [] a[1] = "enable" -> IF a[2] = "on" THEN 1 ELSE 0
               [] a[1] = "die" -> <<"abort", 0, Cried(a[2], a[3], a[4], a[5])>>
               [] a[1] = "alloc" -> Alloc(a[2], a[3], a[4], a[5], a[6], a[7])
               [] a[1] = "dup" -> IF a[2] = None \/ a[3] = 1 THEN <<"abort", <<>>>> ELSE <<"ok", a[2]>>
               [] a[1] = "free" -> 0
Do(a) == act' = a /\ out' = Result(a)
Init == act = <<"start">> /\ out = 0
\* ------------------------------------------------------------------ model
S(k) == IF k = 0 THEN <<>> ELSE [i \in 1..k |-> 96 + i]
MSaid == act[1] = "start" /\ \E op \in {"said", "cried"}, c \in {None, <<>>, S(2)}, f \in {S(1), <<47>> \o S(2), <<97, 47, 98, 47, 99, 46, 104>>}, n \in {0, 9, 10, 65536, 2147483647}, g \in {None, <<>>, S(3)} : Do(<<op, c, f, n, g>>)
MAssert == act[1] = "start" /\ \E k \in Kinds, m \in {"on", "ndebug", "noassert"}, h \in {0, 1} : Do(<<"assert", k, m, h, S(1), S(2), 7, S(3)>>)
MEnable == act[1] = "start" /\ \E m \in {"on", "ndebug", "noassert"} : Do(<<"enable", m>>)
MDie == act[1] = "start" /\ Do(<<"die", S(4), S(2), 7, S(3)>>)
MAlloc == act[1] = "start" /\ \E k \in {"malloc", "calloc", "realloc", "mallocs", "callocs"}, s \in MSizes, n \in MNums, o \in {0, 1}, r \in {0, 1}, w \in MNums :
              /\ (k # "realloc" => w = 0) /\ (o = 1 => s > 1) /\ Do(<<"alloc", k, s, n, o, r, w>>)
MDup == act[1] = "start" /\ \E t \in {None, <<>>, S(1), S(9)}, r \in {0, 1} : Do(<<"dup", t, r>>)
MFree == act[1] = "start" /\ \E n \in {0, 1} : Do(<<"free", n>>)
Next == MSaid \/ MAssert \/ MEnable \/ MDie \/ MAlloc \/ MDup \/ MFree
Spec == Init /\ [][Next]_vars
GView == 0
Emit == PrintT("@T" \o ToJson([f |-> "0", a |-> act', t |-> "0", i |-> TRUE]))
MSizesSmall == {1, 4, 8, 24}
MNumsSmall == {1, 3, 17}
\* ------------------------------------------------------------------ what users rely on
Laws == /\ act[1] = "assert" => /\ (act[4] = 1 => out[1] = "ok" /\ out[3] = <<>>)
                                /\ (act[4] = 0 /\ act[2] \in {"always", "return", "returnV"} => out[1] # "ok")
                                /\ (out[3] = <<>>) = (act[4] = 1 \/ out[2] = 0)
        /\ act[1] = "alloc" => (out[1] = "ok") = (act[5] = 0 /\ act[6] = 0)
=============================================================================
