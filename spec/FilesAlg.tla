------------------------------ MODULE FilesAlg ------------------------------
(* How zt_mkdir makes a directory and those above it, system call by system call, while others do the same and the system
   may refuse: every call ends, 0 says the directory is there, and nobody fails because somebody else was faster.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Procs, Paths, MaxRefused
VARIABLES dirs, files, want, pc, at, res, refused
vars == <<dirs, files, want, pc, at, res, refused>>
None == "none"
Init == /\ dirs \in {{}} \cup {{<<n>>} : n \in {"a"}}
        /\ files \in SUBSET {<<"b">>, <<"a", "a">>} /\ files \cap dirs = {} /\ (<<"a", "a">> \in files => <<"a">> \in dirs)
        /\ want \in [Procs -> Paths] /\ pc = [p \in Procs |-> "first"] /\ at = [p \in Procs |-> 1] /\ res = [p \in Procs |-> None] /\ refused = 0
Prefix(s, k) == SubSeq(s, 1, k)
There(s) == s = <<>> \/ s \in dirs
Outcome(s) == IF s \in dirs \cup files THEN "exists" ELSE IF There(Prefix(s, Len(s) - 1)) THEN "made" ELSE "nowhere"
\* one mkdir by the system
Sys(p, s, onMade, onExists, onFail) ==
    \/ /\ Outcome(s) = "made" /\ dirs' = dirs \cup {s} /\ onMade /\ UNCHANGED <<files, want, refused>>
    \/ /\ Outcome(s) = "exists" /\ onExists /\ UNCHANGED <<dirs, files, want, refused>>
    \/ /\ Outcome(s) = "nowhere" /\ onFail /\ UNCHANGED <<dirs, files, want, refused>>
    \/ /\ Outcome(s) = "made" /\ refused < MaxRefused /\ refused' = refused + 1 /\ onFail /\ UNCHANGED <<dirs, files, want>>
Done(p, r) == pc' = [pc EXCEPT ![p] = "done"] /\ res' = [res EXCEPT ![p] = r] /\ at' = at
Answer(p) == Done(p, IF want[p] \in dirs THEN "ok" ELSE "no")
First(p) == pc[p] = "first" /\ Sys(p, want[p], Done(p, "ok"), Answer(p), pc' = [pc EXCEPT ![p] = "above"] /\ UNCHANGED <<at, res>>)
Above(p) == /\ pc[p] = "above" /\ at[p] < Len(want[p])
            /\ LET on == at' = [at EXCEPT ![p] = @ + 1] /\ UNCHANGED <<pc, res>> IN Sys(p, Prefix(want[p], at[p]), on, on, Done(p, "no"))
Last(p) == pc[p] = "above" /\ at[p] = Len(want[p]) /\ Sys(p, want[p], Done(p, "ok"), Answer(p), Done(p, "no"))
Step(p) == First(p) \/ Above(p) \/ Last(p)
Next == (\E p \in Procs : Step(p)) \/ ((\A p \in Procs : pc[p] = "done") /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))
Free(s) == \A k \in 1..Len(s) : Prefix(s, k) \notin files
Said == \A p \in Procs : /\ res[p] = "ok" => want[p] \in dirs
                         /\ (pc[p] = "done" /\ refused = 0 /\ Free(want[p])) => res[p] = "ok"
                         /\ (pc[p] = "done" /\ refused = 0) => (res[p] = "ok" <=> want[p] \in dirs)
Tree == \A s \in dirs : There(Prefix(s, Len(s) - 1)) /\ s \notin files
Only == \A s \in dirs : s = <<"a">> \/ \E p \in Procs, k \in 1..3 : k <= Len(want[p]) /\ s = Prefix(want[p], k)
Ends == <>(\A p \in Procs : pc[p] = "done")
MPaths == {<<"a">>, <<"a", "a">>, <<"a", "b">>, <<"b", "a">>, <<"a", "a", "a">>, <<"a", "b", "a">>, <<"b">>}
=============================================================================
