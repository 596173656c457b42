----------------------------- MODULE LedgerTrace -----------------------------
(* Recorded use of the library's objects; r = [blocks held per slot, open files per slot], slot 0 (the caller) first,
   made says whether a making succeeded.                                                                              *)
EXTENDS Ledger, TraceBase
Held == [i \in 0..N |-> <<e.r[1][i + 1], e.r[2][i + 1]>>]
Step1 == LET i == e.a[1] k == e.a[2] w == e.a[3] IN
         CASE e.op = "make" /\ e.made = 1 -> Make(i, k, w, Held[i])
           [] e.op = "make" /\ e.made = 0 -> Refuse(i, k, w)
           [] e.op = "use" /\ w \in K[k].use -> Use(i, k, w, Held[i])
           [] e.op = "use" /\ w \in K[k].look -> Look(i, k, w)
           [] e.op = "call" -> Call(w)
           [] e.op = "drop" -> Drop(i, k)
Reset == e.op = "reset" /\ obj' = [i \in Slots |-> "-"] /\ hist' = [i \in Slots |-> <<>>] /\ led' = [i \in 0..N |-> Nothing] /\ act' = <<"init">>
TraceInit == l = 1 /\ Init
TraceNext == Step /\ (Reset \/ (e.op # "reset" /\ Step1 /\ \A i \in 0..N : led'[i] = Held[i]))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TView == <<obj, led, l>>
=============================================================================
