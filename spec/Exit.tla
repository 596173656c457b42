-------------------------------- MODULE Exit --------------------------------
(* What is done when the program ends: zt_atexit.  A handler is <<function, datum, handlers it registers when it runs>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MFns, MKids, MMax, MLate
VARIABLES todo,      \* registered and not yet run, newest first
          late,      \* a handler each that the C library's own exit handlers register when they run
          ended,     \* the program is ending
          ran, made, act, out
vars == <<todo, late, ended, ran, made, act, out>>
\* handlers registered in order, on top of those there
RECURSIVE Push(_, _)
Push(s, hs) == IF hs = <<>> THEN s ELSE Push(<<hs[1]>> \o s, Tail(hs))
Register(h) == /\ ~ended /\ act' = <<"reg", h>> /\ todo' = Push(todo, <<h>>) /\ made' = made + 1 /\ out' = 0 /\ UNCHANGED <<late, ended, ran>>
\* the program ends, by itself (1) or abruptly (0): then no handler runs
Exit(orderly) == ~ended /\ act' = <<"exit", orderly>> /\ ended' = TRUE /\ todo' = (IF orderly = 1 THEN todo ELSE <<>>) /\ out' = 0
               /\ late' = (IF orderly = 1 THEN late ELSE <<>>) /\ UNCHANGED <<ran, made>>
\* the program gives the C library a handler of its own, which when it runs, at whatever point of the exit, registers h
Late(h) == ~ended /\ act' = <<"late", h>> /\ late' = <<h>> \o late /\ out' = 0 /\ UNCHANGED <<todo, ended, ran, made>>
Wake == /\ ended /\ late # <<>> /\ act' = <<"wake">> /\ todo' = Push(todo, <<late[1]>>) /\ late' = Tail(late) /\ made' = made + 1 /\ out' = 0
        /\ UNCHANGED <<ended, ran>>
Run == /\ ended /\ todo # <<>> /\ act' = <<"run">> /\ out' = <<todo[1][1], todo[1][2]>> /\ ran' = Append(ran, out')
       /\ todo' = Push(Tail(todo), todo[1][3]) /\ made' = made + Len(todo[1][3]) /\ UNCHANGED <<late, ended>>
Init == todo = <<>> /\ late = <<>> /\ ended = FALSE /\ ran = <<>> /\ made = 0 /\ act = <<"start">> /\ out = 0
\* ------------------------------------------------------------------ model
Calls == \/ made < MMax /\ \E f \in MFns, k \in MKids : Register(<<f, made, k>>)
         \/ made + Len(late) < MMax /\ Len(late) < MLate /\ \E k \in {<<>>, <<<<0, 100, <<>>>>>>} : Late(<<1, 200 + Len(late), k>>)
         \/ \E o \in {0, 1} : Exit(o)
Next == Calls \/ Run \/ Wake
Spec == Init /\ [][Next]_vars /\ WF_vars(Run) /\ WF_vars(Wake)
GSpec == Init /\ [][Calls]_vars
Count(hs) == Len(hs)
RECURSIVE All(_)
All(hs) == IF hs = <<>> THEN 0 ELSE 1 + All(hs[1][3]) + All(Tail(hs))
\* every handler runs once, those not yet run are still to run
Once == Len(ran) + Len(todo) = made \/ (ended /\ ran = <<>>)
Laws == Once
\* a handler registered before another of the program's runs after it
Newest == \A i, j \in 1..Len(ran) : i < j /\ ran[i][2] < 100 /\ ran[j][2] < 100 => ran[i][2] > ran[j][2]
Finishes == ended ~> todo = <<>> /\ late = <<>>
Steps == [][act'[1] = "run" => out' = <<todo[1][1], todo[1][2]>>]_vars
MKidsSmall == {<<>>, <<<<1, 100, <<>>>>>>, <<<<0, 100, <<>>>>, <<1, 101, <<<<0, 102, <<>>>>>>>>>>}
Emit == PrintT("@T" \o ToJson([f |-> ToString(<<todo, late, ended>>), a |-> act', t |-> ToString(<<todo', late', ended'>>), i |-> act[1] = "start"]))
=============================================================================
