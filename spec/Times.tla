------------------------------- MODULE Times -------------------------------
(* Arithmetic on times and timing a function.  A time is <<seconds, microseconds>>, seconds a number of any size and
   microseconds in 0..999999; -0.25 s is <<-1, 750000>>.  Clocks and the function timed are stand-ins: the function takes
   a given time of the processor, reading the clocks a given cost.                                                    *)
EXTENDS Big, TLC, Json
CONSTANTS MSecs, MMicros, MCounts, MCosts
VARIABLES cal, act, out          \* cal: the calibrated cost, <<user, system>>
vars == <<cal, act, out>>
M == 1000000
Zero == <<Int2Big(0), 0>>
Add(s, t) == LET u == s[2] + t[2] IN <<Plus(Plus(s[1], t[1]), Int2Big(u \div M)), u % M>>
Sub(s, t) == LET u == s[2] - t[2] IN <<Minus(Minus(s[1], t[1]), Int2Big(IF u < 0 THEN 1 ELSE 0)), u % M>>
Before(s, t) == Less(s[1], t[1]) \/ (s[1] = t[1] /\ s[2] < t[2])
Cmp(s, t) == IF s = t THEN 0 ELSE IF Before(s, t) THEN -1 ELSE 1
Times_(n, t) == FoldLeft(LAMBDA z, k : Add(z, t), Zero, [k \in 1..n |-> k])            \* n times t
T(a) == <<Of(a[1]), a[2]>>
Show(t) == <<Bytes(t[1]), t[2]>>
\* seconds and 64ths of a second, a short time exactly
Parts(s, k) == (64 * s) + k
\* text
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
Hundredths(h) == Dec(h \div 100) \o <<46, 48 + ((h \div 10) % 10), 48 + (h % 10)>>
Line(n, name, u, s) == (IF n <= 1 THEN <<>> ELSE Dec(n) \o <<32, 99, 97, 108, 108, 115, 32, 111, 102, 32>>)                \* " calls of "
                       \o name \o <<32, 116, 111, 111, 107, 58, 32>> \o Hundredths(u) \o <<115, 32, 117, 115, 101, 114, 32>>   \* " took: ", "s user "
                       \o Hundredths(s) \o <<115, 32, 115, 121, 115, 116, 101, 109, 32>> \o Hundredths(u + s) \o <<115, 32, 116, 111, 116, 97, 108>>
Result(a, c) ==
    CASE a[1] = "add" -> Show(Add(T(a[2]), T(a[3])))
      [] a[1] = "sub" -> Show(Sub(T(a[2]), T(a[3])))
      [] a[1] = "diff" -> Show(Sub(T(a[3]), T(a[2])))
      [] a[1] = "cmp" -> Cmp(T(a[2]), T(a[3]))
      [] a[1] = "copy" -> a[2]
      [] a[1] = "elapsed" -> <<Parts(a[2], a[3]), Parts(a[4], a[5]), Parts(a[2], a[3]) + Parts(a[4], a[5])>>
      [] a[1] = "print" -> Line(a[2], a[3], a[4], a[5])
      [] a[1] = "calibrate" -> 0
      \* number of calls, user and system time of one, cost of reading the clocks: calls made, what the last returned, times
      [] a[1] = "time" -> <<a[2], a[2], Show(Sub(Add(Times_(a[2], T(a[3])), T(a[5])), c[1])), Show(Sub(Add(Times_(a[2], T(a[4])), T(a[6])), c[2]))>>
Do(a) == /\ act' = a /\ out' = Result(a, cal)
         /\ cal' = IF a[1] = "calibrate" THEN <<T(a[2]), T(a[3])>> ELSE IF a[1] = "reset" THEN <<Zero, Zero>> ELSE cal
Init == cal = <<Zero, Zero>> /\ act = <<"start">> /\ out = 0
\* ------------------------------------------------------------------ model
Tm == {<<Bytes(Int2Big(s)), m>> : s \in MSecs, m \in MMicros}
Pos == {t \in Tm : t[1][1] = 0}
Fresh == cal = <<Zero, Zero>>
Sum == Fresh /\ \E s, t \in Tm, al \in 0..2 : \E o \in {"add", "sub", "diff"} : Do(<<o, s, t, al>>)
Same == Fresh /\ \E s \in Tm, o \in {"add", "sub", "diff"} : Do(<<o, s, s, 3>>)
Compare == Fresh /\ \E s, t \in Tm : Do(<<"cmp", s, t>>)
Copy == Fresh /\ \E s \in Tm : Do(<<"copy", s>>)
Elapsed == Fresh /\ \E s, u \in {-1, 0, 3}, k \in {0, 16, 63} : Do(<<"elapsed", s, k, u, 1>>)
Printing == Fresh /\ \E n \in {0, 1, 2, 10}, u \in {0, 25, 1250}, s \in {0, 75, 100} : Do(<<"print", n, <<102>>, u, s>>)
Calibrate == \E u, s \in MCosts : Do(<<"calibrate", u, s>>)
Time == \E n \in MCounts, u \in Pos, s \in MCosts, c \in MCosts : Do(<<"time", n, u, s, c, c>>)
Next == act[1] \in {"start", "calibrate"} /\ (Sum \/ Same \/ Compare \/ Copy \/ Elapsed \/ Printing \/ Calibrate \/ Time)
Spec == Init /\ [][Next]_vars
View == <<cal, act>>
GView == cal
Name(c) == ToString(c)
Emit == PrintT("@T" \o ToJson([f |-> Name(cal), a |-> act', t |-> Name(cal'), i |-> cal = <<Zero, Zero>>]))
MSecsSmall == {-1, 0, 7}
MMicrosSmall == {0, 1, 500000, 999999}
Cost(u) == <<Bytes(Int2Big(0)), u>>
MCostsSmall == {Cost(0), Cost(3), Cost(999999)}
\* ------------------------------------------------------------------ what users rely on, said differently
Norm_(t) == t[2] \in 0..999999
Laws == CASE act[1] = "add" -> LET s == T(act[2]) t == T(act[3]) z == T(out) IN
               Norm_(z) /\ Sub(z, t) = s /\ Sub(z, s) = t /\ Add(t, s) = z
          [] act[1] = "sub" -> LET s == T(act[2]) t == T(act[3]) z == T(out) IN
               Norm_(z) /\ Add(z, t) = s /\ (z[1][1] <=> Before(s, t)) /\ (z = Zero <=> s = t)
          [] act[1] = "cmp" -> LET s == T(act[2]) t == T(act[3]) IN
               /\ out = -Cmp(t, s) /\ \A u \in Tm : (out <= 0 /\ Cmp(t, T(u)) <= 0) => Cmp(s, T(u)) <= 0
               /\ \A u \in Tm : Cmp(Add(s, T(u)), Add(t, T(u))) = out
          \* with the clocks as dear as at calibration, the time reported is that of the calls
          [] act[1] = "time" -> /\ <<T(act[5]), T(act[6])>> = cal => LET us == (act[2] * act[3][2]) IN T(out[3]) = <<Plus(Times(Of(act[3][1]), Int2Big(act[2])), Int2Big(us \div M)), us % M>>
                                /\ \A k \in {3, 4} : Norm_(out[k])
          [] OTHER -> TRUE
=============================================================================
