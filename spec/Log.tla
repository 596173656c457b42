---------------------------------- MODULE Log ----------------------------------
(* zt_log: loggers to files, stderr and syslog, a default logger, per-thread debug information for the next message.
   Text is a sequence of character codes.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NH,                        \* loggers 1..NH are made by the user, NH + 1 is one made for want of a default
          MDests, MOpts, MLevels     \* model only
VARIABLES env,   \* [host, prog, date, pid]: text
          lg,    \* logger -> [d: destination, o: options, v: level] or NoLog; destination 0: stderr, 1, 2: files, 3: syslog
          def,   \* the default logger, 0: none
          flen,  \* destination -> length of the file
          dbg,   \* thread -> [f: file, l: line, n: function]; <<0>>: NULL
          out,   \* <<result, what has been written where>>
          act
lvars == <<env, lg, def, flen, dbg, out, act>>
NoLog == [d |-> -1, o |-> 0, v |-> 0]
Null == <<0>>
Forced == NH + 1
Levels == <<<<69,109,101,114,103,101,110,99,121>>, <<65,108,101,114,116>>, <<67,114,105,116,105,99,97,108>>, <<69,114,114,111,114>>,
            <<87,97,114,110,105,110,103>>, <<78,111,116,105,99,101>>, <<73,110,102,111>>, <<68,101,98,117,103>>>>
MaxLevel == 8
Bit(o, b) == (o \div b) % 2 = 1
DATE == 1
LEVEL == 2
SYSNAME == 4
PROGNAME == 8
PID == 16
Colon == <<58, 32>>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Num(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)
Prefix(o, v) ==
    (IF Bit(o, DATE) THEN env.date ELSE <<>>)
    \o (IF Bit(o, SYSNAME) THEN env.host \o (IF o > SYSNAME THEN <<32>> ELSE <<>>) ELSE <<>>)
    \o (IF Bit(o, PROGNAME) THEN env.prog ELSE <<>>)
    \o (IF Bit(o, PID) THEN <<91>> \o env.pid \o <<93>> ELSE <<>>)
    \o (IF Bit(o, LEVEL) /\ v < MaxLevel THEN (IF o # LEVEL THEN Colon ELSE <<>>) \o Levels[v + 1] ELSE <<>>)
    \o (IF o # 0 THEN Colon ELSE <<>>)
\* ": in function at (file:line)"
Where(b) == IF b.f = Null \/ b.l < 0 \/ b.n = Null THEN <<>>
            ELSE Colon \o <<105,110,32>> \o b.n \o <<32,97,116,32,40>> \o b.f \o <<58>> \o Num(b.l) \o <<41>>
Line(o, v, msg, b) == Prefix(o, v) \o msg \o Where(b) \o <<10>>
Priority(v) == IF v < MaxLevel THEN v ELSE 3
NoDbg(l) == [f |-> Null, l |-> l, n |-> Null]
\* the default logger, made when there is none
Made == [d |-> 0, o |-> LEVEL, v |-> MaxLevel]
Use(h) == IF h # 0 THEN h ELSE IF def # 0 THEN def ELSE Forced
NeedsNew(h) == h = 0 /\ def = 0
CanUse(h) == IF NeedsNew(h) THEN lg[Forced] = NoLog ELSE lg[Use(h)] # NoLog
Lg1(h) == IF NeedsNew(h) THEN [lg EXCEPT ![Forced] = Made] ELSE lg
Def1(h) == IF NeedsNew(h) THEN Forced ELSE def

Open(h, d, append, o) == /\ lg[h] = NoLog /\ act' = <<"open", h, d, append, o>> /\ lg' = [lg EXCEPT ![h] = [d |-> d, o |-> o, v |-> MaxLevel]]
                         /\ flen' = [flen EXCEPT ![d] = IF append THEN @ ELSE 0] /\ out' = <<flen'[d], <<>>>> /\ UNCHANGED <<env, def, dbg>>
Stderr(h, o) == /\ lg[h] = NoLog /\ act' = <<"stderr", h, o>> /\ lg' = [lg EXCEPT ![h] = [d |-> 0, o |-> o, v |-> MaxLevel]]
                /\ out' = <<0, <<>>>> /\ UNCHANGED <<env, def, flen, dbg>>
Syslog(h) == /\ lg[h] = NoLog /\ act' = <<"syslog", h>> /\ lg' = [lg EXCEPT ![h] = [d |-> 3, o |-> 0, v |-> MaxLevel]]
             /\ out' = <<0, <<>>>> /\ UNCHANGED <<env, def, flen, dbg>>
\* a file that cannot be opened: no logger, and nothing is kept
Refused == act' = <<"refused">> /\ out' = <<0, <<>>>> /\ UNCHANGED <<env, lg, def, flen, dbg>>
SetOpts(h, o) == /\ CanUse(h) /\ act' = <<"setopts", h, o>> /\ lg' = [Lg1(h) EXCEPT ![Use(h)].o = o] /\ def' = Def1(h)
                 /\ out' = <<Lg1(h)[Use(h)].o, <<>>>> /\ UNCHANGED <<env, flen, dbg>>
SetLevel(h, v) == /\ CanUse(h) /\ act' = <<"setlevel", h, v>> /\ lg' = [Lg1(h) EXCEPT ![Use(h)].v = v] /\ def' = Def1(h)
                  /\ out' = <<Lg1(h)[Use(h)].v, <<>>>> /\ UNCHANGED <<env, flen, dbg>>
Get(h) == /\ CanUse(h) /\ act' = <<"get", h>> /\ lg' = Lg1(h) /\ def' = Def1(h)
          /\ out' = <<Lg1(h)[Use(h)].v * 100 + Lg1(h)[Use(h)].o, <<>>>> /\ UNCHANGED <<env, flen, dbg>>
\* install logger h (0: none) as the default; returns the last one.  With neither, one is made.
Logger(h) == /\ IF h = 0 THEN TRUE ELSE lg[h] # NoLog
             /\ act' = <<"logger", h>> /\ UNCHANGED <<env, flen, dbg>>
             /\ IF NeedsNew(h) THEN lg[Forced] = NoLog /\ lg' = Lg1(h) /\ def' = Forced /\ out' = <<Forced, <<>>>>
                ELSE def' = h /\ out' = <<def, <<>>>> /\ UNCHANGED lg
Written(d, v, text) == IF d = 3 THEN <<<<3, <<Priority(v)>> \o text>>>> ELSE <<<<d, text>>>>
Log(h, t, v, msg) ==
    LET x == Lg1(h)[Use(h)]
        o == IF x.d = 3 THEN (IF Bit(x.o, LEVEL) THEN LEVEL ELSE 0) ELSE x.o
        text == Line(o, v, msg, dbg[t])
    IN /\ CanUse(h) /\ lg' = Lg1(h) /\ def' = Def1(h) /\ UNCHANGED env
       /\ dbg' = [dbg EXCEPT ![t] = NoDbg(-1)]
       /\ IF v > x.v THEN out' = <<0, <<>>>> /\ UNCHANGED flen
          ELSE out' = <<0, Written(x.d, v, text)>> /\ flen' = [flen EXCEPT ![x.d] = @ + Len(text)]
Say(h, t, v, msg) == act' = <<"print", h, t, v, msg>> /\ Log(h, t, v, msg)
\* the error's text goes behind the message
ErrText(n) == CASE n = 2 -> <<78,111,32,115,117,99,104,32,102,105,108,101,32,111,114,32,100,105,114,101,99,116,111,114,121>>
                [] n = 13 -> <<80,101,114,109,105,115,115,105,111,110,32,100,101,110,105,101,100>>
                [] OTHER -> <<85,110,107,110,111,119,110,32,101,114,114,111,114,32>> \o Num(n)
StrError(h, t, v, n, msg) == act' = <<"strerror", h, t, v, n, msg>> /\ Log(h, t, v, msg \o Colon \o ErrText(n))
SetDebug(t, b) == act' = <<"setdbg", t, b>> /\ dbg' = [dbg EXCEPT ![t] = b] /\ out' = <<0, <<>>>> /\ UNCHANGED <<env, lg, def, flen>>
GetDebug(t) == act' = <<"getdbg", t>> /\ out' = <<dbg[t].l, dbg[t].f, dbg[t].n>> /\ UNCHANGED <<env, lg, def, flen, dbg>>
Close(h) == /\ lg[h] # NoLog /\ act' = <<"close", h>> /\ lg' = [lg EXCEPT ![h] = NoLog] /\ def' = IF def = h THEN 0 ELSE def
            /\ out' = <<Cardinality({g \in DOMAIN lg : lg'[g].d \in {1, 2}}), <<>>>>     \* the files still open
            /\ UNCHANGED <<env, flen, dbg>>
\* nt threads write n lines each, at the same time: every line whole, each thread's in order
Mine(k, i) == <<48 + k, 45>> \o Num(i)
Many(h, nt, n, v, lines) ==
    LET x == lg[h] T(k, i) == Line(x.o, v, Mine(k, i), NoDbg(-1)) IN
    /\ lg[h] # NoLog /\ x.d \in {1, 2} /\ act' = <<"many", h, nt, n, v>> /\ UNCHANGED <<env, lg, def, dbg>>
    /\ IF v > x.v THEN lines = <<>> /\ UNCHANGED flen
       ELSE /\ Len(lines) = nt * n
            /\ \A k \in 1..nt : SelectSeq(lines, LAMBDA s : \E i \in 1..n : s = T(k, i)) = [i \in 1..n |-> T(k, i)]
            /\ flen' = [flen EXCEPT ![x.d] = @ + nt * n * Len(T(1, 1))]      \* n < 10
    /\ out' = <<0, <<>>>>

\* ------------------------------------------------------------------ model
Env0 == [host |-> <<104>>, prog |-> <<112>>, date |-> <<100, 32>>, pid |-> <<49>>]
Init == /\ env = Env0 /\ lg = [h \in 1..NH + 1 |-> NoLog] /\ def = 0 /\ flen = [d \in 0..3 |-> 0] /\ dbg = [t \in 0..1 |-> NoDbg(0)]
        /\ out = <<0, <<>>>> /\ act = <<"init">>
MDbg == {NoDbg(-1), [f |-> <<102>>, l |-> 7, n |-> <<110>>]}
FreeDest(d) == d \notin {1, 2} \/ \A h \in 1..NH : lg[h].d # d
OpenFile(h, d, a, o) == d \in {1, 2} /\ FreeDest(d) /\ Open(h, d, a, o)
ToStderr(h, o) == 0 \in MDests /\ Stderr(h, o)
ToSyslog(h) == 3 \in MDests /\ Syslog(h)
Next == \/ \E h \in 1..NH, d \in MDests, a \in BOOLEAN, o \in MOpts : OpenFile(h, d, a, o)
        \/ \E h \in 1..NH, o \in MOpts : ToStderr(h, o)
        \/ \E h \in 1..NH : ToSyslog(h)
        \/ \E h \in 0..NH + 1, o \in MOpts : SetOpts(h, o)
        \/ \E h \in 0..NH + 1, v \in MLevels : SetLevel(h, v) \/ Say(h, 0, v, <<109>>) \/ StrError(h, 1, v, 2, <<109>>)
        \/ \E h \in 0..NH + 1 : Get(h) \/ Logger(h)
        \/ \E h \in 1..NH + 1 : Close(h)
        \/ \E t \in 0..1, b \in MDbg : SetDebug(t, b)
        \/ \E t \in 0..1 : GetDebug(t)
        \/ Refused
Spec == Init /\ [][Next]_lvars
View == <<lg, def, dbg, [d \in 0..3 |-> flen[d] # 0]>>
DefLive == def # 0 => lg[def] # NoLog
OneFile == \A h, k \in 1..NH : h # k /\ lg[h].d \in {1, 2} => lg[h].d # lg[k].d
\* a message is written in full or not at all, and only if its level is wanted
Whole == act[1] \in {"print", "strerror"} => \A i \in 1..Len(out[2]) : out[2][i][2][Len(out[2][i][2])] = 10
Short == \A d \in 0..3 : flen[d] < 100
\* one state, one name, however its functions and records came about
Name(g, d, b, n) == ToString(d) \o ToString([h \in 1..NH + 1 |-> <<g[h].d, g[h].o, g[h].v>>])
                    \o ToString([t \in 1..2 |-> <<b[t - 1].f, b[t - 1].l, b[t - 1].n>>]) \o ToString([k \in 1..4 |-> n[k - 1] # 0])
Emit == PrintT("@T" \o ToJson([f |-> Name(lg, def, dbg, flen), a |-> act', t |-> Name(lg', def', dbg', flen'), i |-> TLCGet("level") = 1]))
================================================================================
