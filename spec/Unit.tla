-------------------------------- MODULE Unit --------------------------------
(* The unit test framework: suites of tests are registered, run all together, by suite or one by one, listed; what is reported
   is what happened.  A test is a program of steps, one letter each:
     a  an assertion that holds          e  two equal things asserted equal
     f  an assertion that does not hold  d  the same with a text of its own   n  two equal things asserted different
     m  failing with a message           q  leaving without one
     x y z  throwing a text, a number, no text (C++)
   A step that does not hold ends the test.  A report is lines <<key, value>>; @ stands for file and line.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS MNames, MProgs, MMaxSuites, MMaxTests, MArgs
VARIABLES suites, count, made, act, out          \* made: how many suites and tests were ever registered; they number them
vars == <<suites, count, made, act, out>>
\* count: <<suites run, single tests run, tests, successes, failures, assertions, exceptions>>
Nothing == <<0, 0, 0, 0, 0, 0, 0>>
Plain == {"a", "e"}
Thrown == {"x", "y", "z"}
FirstBad(p) == IF \E k \in 1..Len(p) : p[k] \notin Plain THEN CHOOSE k \in 1..Len(p) : p[k] \notin Plain /\ \A j \in 1..(k - 1) : p[j] \in Plain ELSE 0
Holds(p) == IF FirstBad(p) = 0 THEN Len(p) ELSE FirstBad(p) - 1
Passed(p) == FirstBad(p) = 0
Raised(p) == ~Passed(p) /\ p[FirstBad(p)] \in Thrown
Why(p) == LET c == p[FirstBad(p)] IN
          CASE c = "f" -> "1 == 2@" [] c = "d" -> "\"one is two\"@" [] c = "n" -> "(1 != 1)@" [] c = "m" -> "message 42" [] c = "q" -> "No Error Text"
            [] c = "x" -> "unhandled exception: thrown" [] c = "y" -> "unhandled exception: unknown" [] c = "z" -> "unhandled exception: NULL"
\* ------------------------------------------------------------------ one test
\* what is called around it
Calls(s, t) == (IF s.setup THEN <<<<"setup", s.id>>>> ELSE <<>>) \o <<<<"test", t.id>>>> \o (IF s.teardown THEN <<<<"teardown", s.id>>>> ELSE <<>>)
Report(t) == <<<<t.name, "">>, <<"assertions", ToString(Holds(t.prog))>>>>
             \o (IF Raised(t.prog) THEN <<<<"unhandled_exceptions", "1">>>> ELSE <<>>)
             \o <<<<"result", IF Passed(t.prog) THEN "success" ELSE "failure">>>>
Plus(c, t) == <<c[1], c[2], c[3] + 1, c[4] + (IF Passed(t.prog) THEN 1 ELSE 0), c[5] + (IF Passed(t.prog) THEN 0 ELSE 1), c[6] + Holds(t.prog), c[7] + (IF Raised(t.prog) THEN 1 ELSE 0)>>
\* ------------------------------------------------------------------ runs: <<calls, report, counters>>
RunTest(z, s, t) == <<z[1] \o Calls(s, t), z[2] \o Report(t), LET c == Plus(z[3], t) IN [c EXCEPT ![2] = @ + 1]>>
Failed(s) == SelectSeq(s.tests, LAMBDA t : ~Passed(t.prog))
RunSuite(z, s) ==
    LET all == FoldLeft(LAMBDA y, t : <<y[1] \o Calls(s, t), y[2] \o Report(t), Plus(y[3], t)>>,
                        <<z[1], z[2] \o <<<<"---", "">>, <<s.name, "">>, <<"Tests", "">>>>, [z[3] EXCEPT ![1] = @ + 1]>>, s.tests)
    IN IF Failed(s) = <<>> THEN all
       ELSE <<all[1], all[2] \o <<<<"Errors", "">>>> \o [k \in 1..Len(Failed(s)) |-> <<Failed(s)[k].name, "'" \o Why(Failed(s)[k].prog) \o "'">>], all[3]>>
Stats(c, more) == <<<<"---", "">>, <<"Global Stats", "">>, <<"suites", ToString(c[1] + more)>>, <<"tests", ToString(c[3])>>, <<"successes", ToString(c[4])>>,
              <<"exceptions", ToString(c[7])>>, <<"assertions", ToString(c[6])>>, <<"failures", ToString(c[5])>>>>
\* tests that asserted nothing are pointed out; those that failed before they asserted anything may be
\* a name: its parts
Find(seq, n) == IF \E k \in 1..Len(seq) : seq[k].name = n THEN CHOOSE k \in 1..Len(seq) : seq[k].name = n /\ \A j \in 1..(k - 1) : seq[j].name # n ELSE 0
Names(parts) == LET s == IF Len(parts) \in {1, 2} THEN Find(suites, parts[1]) ELSE 0
                    t == IF s # 0 /\ Len(parts) = 2 THEN Find(suites[s].tests, parts[2]) ELSE 0
                IN <<s, t, s # 0 /\ (Len(parts) = 2 => t # 0)>>
NotFound(text) == <<"not found", text>>
RunName(z, arg) == LET w == Names(arg[2]) IN          \* arg: <<text, parts>>
    IF ~w[3] THEN <<z[1], Append(z[2], NotFound(arg[1])), z[3]>>
    ELSE IF w[2] = 0 THEN RunSuite(z, suites[w[1]]) ELSE RunTest(z, suites[w[1]], suites[w[1]].tests[w[2]])
List == <<<<"Test Suites", "">>>> \o FlattenSeq([k \in 1..Len(suites) |-> <<<<suites[k].name, "">>>> \o [j \in 1..Len(suites[k].tests) |-> <<"-", suites[k].tests[j].name>>]])
Zero(c) == <<<<>>, <<>>, c>>
Is(args, S) == \E k \in 1..Len(args) : args[k][1] \in S
FirstOf(args) == args[CHOOSE k \in 1..Len(args) : args[k][1] \in {"-h", "--help", "-l", "--list"} /\ \A j \in 1..(k - 1) : args[j][1] \notin {"-h", "--help", "-l", "--list"}][1]
Main(args) ==         \* <<calls, report, counters, what the program answers>>
    IF Is(args, {"-h", "--help", "-l", "--list"})
    THEN <<<<>>, IF FirstOf(args) \in {"-l", "--list"} THEN List ELSE <<<<"help", "">>>>, count, 0>>
    ELSE IF args = <<>>
    THEN LET z == FoldLeft(LAMBDA y, s : RunSuite(y, s), Zero(count), suites) IN <<z[1], z[2] \o Stats(z[3], 0), z[3], IF z[3][5] > 0 THEN -1 ELSE 0>>
    ELSE LET z == FoldLeft(LAMBDA y, a : RunName(y, a), Zero(count), args)
         IN <<z[1], z[2], z[3], IF z[3][5] > 0 \/ \E k \in 1..Len(args) : ~Names(args[k][2])[3] THEN -1 ELSE 0>>
\* ------------------------------------------------------------------ calls
Suite(id, name, setup, teardown, cpp) == [id |-> id, name |-> name, setup |-> setup, teardown |-> teardown, cpp |-> cpp, tests |-> <<>>]
Without(q, k) == [j \in 1..(Len(q) - 1) |-> q[IF j < k THEN j ELSE j + 1]]
Do(a) == /\ act' = a
         /\ CASE a[1] = "suite" -> /\ suites' = Append(suites, Suite(made[1] + 1, a[2], a[3] = 1, a[4] = 1, a[5] = 1))
                                   /\ made' = <<made[1] + 1, made[2]>> /\ out' = 0 /\ count' = count
              [] a[1] = "test" -> /\ suites' = [suites EXCEPT ![a[2]].tests = Append(@, [id |-> made[2] + 1, name |-> a[3], prog |-> a[4]])]
                                  /\ made' = <<made[1], made[2] + 1>> /\ out' = 0 /\ count' = count
              [] a[1] = "drop" -> /\ suites' = IF a[3] = 0 THEN Without(suites, a[2]) ELSE [suites EXCEPT ![a[2]].tests = Without(@, a[3])]
                                  /\ out' = 0 /\ UNCHANGED <<count, made>>
              [] a[1] = "main" -> LET m == Main(a[2]) IN count' = m[3] /\ out' = m /\ UNCHANGED <<suites, made>>
              [] a[1] = "counts" -> out' = count /\ UNCHANGED <<suites, count, made>>
Init == suites = <<>> /\ count = Nothing /\ made = <<0, 0>> /\ act = <<"start">> /\ out = 0
\* ------------------------------------------------------------------ model
NewSuite == Len(suites) < MMaxSuites /\ \E n \in MNames, u \in {0, 1} : (Len(suites) = 0 => n = "s") /\ Do(<<"suite", n, u, u, made[1] % 2>>)
NewTest == \E s \in 1..Len(suites), n \in MNames, p \in MProgs :
             /\ Len(suites[s].tests) < MMaxTests /\ ((\E k \in 1..Len(p) : p[k] \in Thrown) => suites[s].cpp) /\ Do(<<"test", s, n, p>>)
Drop == count = Nothing /\ \E s \in 1..Len(suites) : \E t \in 0..Len(suites[s].tests) : Do(<<"drop", s, t>>)
Run == count[1] + count[2] < 2 /\ \E args \in MArgs : Do(<<"main", args>>)
Next == NewSuite \/ NewTest \/ Drop \/ Run
Spec == Init /\ [][Next]_vars
Fits == made[1] <= MMaxSuites /\ made[2] <= MMaxSuites * MMaxTests
View == <<suites, count, act>>
GView == <<suites, count>>
Name(q, c) == ToString([k \in 1..Len(q) |-> <<q[k].id, q[k].name, q[k].setup, q[k].teardown, [j \in 1..Len(q[k].tests) |-> <<q[k].tests[j].id, q[k].tests[j].name, [i \in 1..Len(q[k].tests[j].prog) |-> q[k].tests[j].prog[i]]>>]>>]) \o ToString([k \in 1..7 |-> c[k]])
Emit == PrintT("@T" \o ToJson([f |-> Name(suites, count), a |-> act', t |-> Name(suites', count'), i |-> suites = <<>> /\ count = Nothing /\ made = <<0, 0>>]))
MNamesSmall == {"s", "t"}
MProgsSmall == {<<>>, <<"a", "a">>, <<"a", "f">>, <<"x", "a">>}
One(s) == <<s, <<s>>>>
Two(s, t) == <<s \o "." \o t, <<s, t>>>>
MArgsSmall == {<<>>, <<One("s")>>, <<Two("s", "t"), One("t")>>, <<Two("t", "t")>>, <<One("no"), One("s")>>, <<One("s"), <<"-l", <<"-l">>>>>>, <<<<"s.", <<>>>>>>}
\* ------------------------------------------------------------------ what users rely on
Tests(rep) == SelectSeq(rep, LAMBDA x : x[1] = "result")
Laws == /\ count[3] = count[4] + count[5] /\ count[7] <= count[5]
        /\ act[1] = "main" =>
             /\ Len(Tests(out[2])) = Cardinality({k \in 1..Len(out[1]) : out[1][k][1] = "test"})                          \* every test run is reported once
             /\ out[4] = 0 => \A k \in 1..Len(out[2]) : out[2][k] # <<"result", "failure">> /\ out[2][k][1] # "not found"      \* all is well only if all is well
             \* set up before, torn down after every one of its tests, and never else
             /\ \A s \in 1..Len(suites) : LET c == out[1]
                                             mine == {k \in 1..Len(c) : c[k][1] = "test" /\ \E t \in 1..Len(suites[s].tests) : suites[s].tests[t].id = c[k][2]} IN
                  /\ {k \in 1..Len(c) : c[k] = <<"setup", suites[s].id>>} = (IF suites[s].setup THEN {k - 1 : k \in mine} ELSE {})
                  /\ {k \in 1..Len(c) : c[k] = <<"teardown", suites[s].id>>} = (IF suites[s].teardown THEN {k + 1 : k \in mine} ELSE {})
Steps == [][ act'[1] = "main" => /\ suites' = suites
                                 /\ count'[3] - count[3] = Len(Tests(out'[2]))
                                 /\ count'[5] - count[5] = Len(SelectSeq(out'[2], LAMBDA x : x = <<"result", "failure">>))
                                 /\ (act'[2] = <<>> => \A s \in 1..Len(suites), t \in 1..MMaxTests : t <= Len(suites[s].tests) =>
                                        Cardinality({k \in 1..Len(out'[1]) : out'[1][k] = <<"test", suites[s].tests[t].id>>}) >= 1) ]_vars
=============================================================================
