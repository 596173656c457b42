------------------------------ MODULE UnitTrace ------------------------------
(* Recorded runs of the framework.  Whether a single test counts as a suite run is left open, as is whether a test that failed
   before it asserted anything is pointed out as empty.                                                                    *)
EXTENDS Unit, TraceBase
TraceInit == l = 1 /\ Init
Pairs(q) == [k \in 1..Len(q) |-> <<q[k][1], q[k][2]>>]
Empty(withFailed) == FlattenSeq([k \in 1..Len(suites) |-> LET q == SelectSeq(suites[k].tests, LAMBDA t : Holds(t.prog) = 0 /\ ~Raised(t.prog) /\ (Passed(t.prog) \/ withFailed))
                                                         IN [j \in 1..Len(q) |-> <<"-", q[j].name>>]])
EmptyAt(rep) == IF \E k \in 1..Len(rep) : rep[k] = <<"empty tests", "">> THEN CHOOSE k \in 1..Len(rep) : rep[k] = <<"empty tests", "">> ELSE Len(rep) + 1
\* a suite that had errors once may say so with nothing below
Lines(rep) == SelectSeq(rep, LAMBDA x : x # <<"Errors", "">>)
ReportOk(rep, z, all) ==
    LET core == SubSeq(rep, 1, EmptyAt(rep) - 1)
        tail == SubSeq(rep, EmptyAt(rep) + 1, Len(rep))
        stats == IF all THEN 8 ELSE 0
        body == SubSeq(z[2], 1, Len(z[2]) - stats)
    IN /\ \E more \in {0, z[3][2]} : Lines(core) = Lines(body) \o (IF all THEN Stats(z[3], more) ELSE <<>>)
       /\ IF all THEN tail \in {Empty(TRUE), Empty(FALSE)} ELSE EmptyAt(rep) > Len(rep)
Counts(r) == r[1] \in {count[1], count[1] + count[2]} /\ SubSeq(r, 2, 6) = SubSeq(count, 3, 7)
Args == e.a[1]
TraceNext == Step /\ CASE e.op = "reset" -> suites' = <<>> /\ count' = Nothing /\ made' = <<0, 0>> /\ act' = <<"start">> /\ out' = 0
                       [] e.op = "main" -> LET m == Main(Args) IN
                                             /\ Do(<<"main", Args>>) /\ e.r[1] = m[4] /\ Pairs(e.r[2]) = m[1]
                                             /\ ReportOk(Pairs(e.r[3]), m, Args = <<>>)
                       [] e.op = "counts" -> Do(<<"counts">>) /\ Counts(e.r)
                       [] OTHER -> Do(<<e.op>> \o e.a)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
