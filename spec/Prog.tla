-------------------------------- MODULE Prog --------------------------------
(* The program's name and the directory it was started from: zt_progname, zt_progpath.  Text is a sequence of character codes;
   "@" in front stands for the absolute path of the root of the trees used here.  A directory is the sequence of names that
   leads to it, its root first.                                                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS MNames, MProgs, MEnvs, MCwds, MFiles
VARIABLES name, path, env, cwd, files, exe, act, out
vars == <<name, path, env, cwd, files, exe, act, out>>
T == INSTANCE CPath WITH MStr <- {}, act <- act, out <- out
Unset == <<0>>
Unknown == <<42, 85, 78, 75, 78, 79, 87, 78, 42>>
SLASH == 47
COLON == 58
ROOT == 64
PATHMAX == 4096
\* ------------------------------------------------------------------ directories
SplitAt(p, d) == LET z == FoldLeft(LAMBDA y, c : IF c = d THEN <<Append(y[1], y[2]), <<>>>> ELSE <<y[1], Append(y[2], c)>>, <<<<>>, <<>>>>, p)
                 IN Append(z[1], z[2])
IsAbs(p) == p # <<>> /\ (p[1] = SLASH \/ p[1] = ROOT)
Go(d, n) == IF n = <<>> \/ n = <<46>> THEN d ELSE IF n = <<46, 46>> THEN SubSeq(d, 1, Len(d) - 1) ELSE Append(d, n)
\* where a path leads from directory d
From(d, p) == FoldLeft(Go, IF IsAbs(p) THEN <<>> ELSE d, SplitAt(p, SLASH))
Text(d) == IF d = <<>> THEN <<SLASH>> ELSE FoldLeft(LAMBDA y, n : IF y = <<>> THEN (IF n = <<ROOT>> THEN n ELSE <<SLASH>> \o n) ELSE y \o <<SLASH>> \o n, <<>>, d)
\* ------------------------------------------------------------------ calls
Given(p) == p # Unset /\ p # <<>>
Named(p, strip) == IF strip = 1 THEN T!Base(p, T!None) ELSE p
\* the answer is a text r: a name that does not fit a path is cut where paths end, with or without room for a terminator
SetName(p, strip, r) == /\ act' = <<"name", p, strip>> /\ UNCHANGED <<path, env, cwd, files, exe>> /\ name' = r /\ out' = r
                        /\ IF ~Given(p) THEN r = name
                           ELSE LET n == Named(p, strip) IN IF Len(n) < PATHMAX THEN r = n
                                                            ELSE IsPrefix(r, n) /\ Len(r) \in {PATHMAX - 1, PATHMAX}
Has(d, p) == Append(d, p) \in files
\* the parts of PATH that have the program; an empty part is the current directory
Found(p) == SelectSeq(SplitAt(env, COLON), LAMBDA t : Has(From(cwd, t), p))
Bare(p) == ~\E k \in 1..Len(p) : p[k] = SLASH
Home(p) == IF ~Bare(p) THEN From(cwd, T!Dir(p))
           ELSE IF env = Unset THEN From(cwd, exe)
           ELSE IF env # <<>> /\ Found(p) # <<>> THEN From(cwd, Found(p)[1]) ELSE cwd
\* only a directory named by a relative part of PATH may be told as it stands there
MayBeRelative(p) == Bare(p) /\ env # Unset /\ env # <<>> /\ Found(p) # <<>> /\ ~IsAbs(Found(p)[1])
\* the answer is a text r
Path(p, r) == /\ act' = <<"path", p>> /\ UNCHANGED <<name, env, cwd, files, exe>> /\ path' = r /\ out' = r
              /\ IF ~Given(p) THEN r = path
                 ELSE Len(p) + 200 < PATHMAX => From(cwd, r) = Home(p) /\ (IsAbs(r) \/ MayBeRelative(p))
Env(p) == act' = <<"env", p>> /\ env' = p /\ out' = 0 /\ UNCHANGED <<name, path, cwd, files, exe>>
Cd(d) == act' = <<"cd", d>> /\ cwd' = From(<<>>, d) /\ out' = 0 /\ UNCHANGED <<name, path, env, files, exe>>
Put(f) == act' = <<"put", f>> /\ files' = files \cup {From(<<>>, f)} /\ out' = 0 /\ UNCHANGED <<name, path, env, cwd, exe>>
Rm(f) == act' = <<"rm", f>> /\ files' = files \ {From(<<>>, f)} /\ out' = 0 /\ UNCHANGED <<name, path, env, cwd, exe>>
Cwd0 == <<<<ROOT>>, <<117>>, <<118>>>>
Init == /\ name = Unknown /\ path = Unknown /\ env = <<>> /\ cwd = Cwd0 /\ files = {} /\ exe = <<ROOT, SLASH, 120>>
        /\ act = <<"start">> /\ out = 0
\* ------------------------------------------------------------------ model
Next == \/ \E p \in MNames, s \in {0, 1} : SetName(p, s, IF Given(p) THEN Named(p, s) ELSE name)
        \/ \E p \in MProgs : Path(p, IF Given(p) THEN Text(Home(p)) ELSE path)
        \/ \E v \in MEnvs : env # v /\ Env(v)
        \/ \E d \in MCwds : From(<<>>, d) # cwd /\ Cd(d)
        \/ \E f \in MFiles : IF From(<<>>, f) \in files THEN Rm(f) ELSE Put(f)
Spec == Init /\ [][Next]_vars
View == <<name, path, env, cwd, files, act, out>>
GView == <<name, path, env, cwd, files>>
FileSeq == SetToSeq(MFiles)
Named1(a, b, v, d, f) == ToString(<<a, b, v, d>>) \o ToString([k \in 1..Len(FileSeq) |-> From(<<>>, FileSeq[k]) \in f])
Emit == PrintT("@T" \o ToJson([f |-> Named1(name, path, env, cwd, files), a |-> act', t |-> Named1(name', path', env', cwd', files'),
                               i |-> act[1] = "start"]))
A(s) == <<ROOT, SLASH>> \o s
u == 117
v_ == 118
a_ == 97
p_ == 112
MNamesSmall == {Unset, <<>>, <<p_>>, A(<<p_>>), <<a_, SLASH, p_, SLASH>>}
MProgsSmall == {Unset, <<>>, <<p_>>, <<46, SLASH, p_>>, <<a_, SLASH, p_>>, <<46, 46, SLASH, p_>>, A(<<a_, SLASH, p_>>), <<SLASH, p_>>}
MEnvsSmall == {Unset, <<>>, A(<<a_>>), <<COLON>> \o A(<<a_>>), A(<<a_, COLON>>) \o A(<<u>>), A(<<u>>) \o <<COLON, COLON>> \o A(<<a_>>), <<a_>>}
MCwdsSmall == {A(<<u, SLASH, v_>>), A(<<a_>>)}
MFilesSmall == {A(<<a_, SLASH, p_>>), A(<<u, SLASH, v_, SLASH, p_>>), A(<<u, SLASH, p_>>), A(<<u, SLASH, v_, SLASH, a_, SLASH, p_>>)}
\* ------------------------------------------------------------------ what users rely on
Laws == act[1] = "path" /\ Given(act[2]) =>
          /\ (Bare(act[2]) /\ env # Unset) =>
               LET d == From(cwd, path) parts == IF env = <<>> THEN <<>> ELSE SplitAt(env, COLON) IN
               \* the program is there, unless it is nowhere; no part before has it
               /\ Has(d, act[2]) \/ (d = cwd /\ \A k \in 1..Len(parts) : ~Has(From(cwd, parts[k]), act[2]))
               /\ \A k \in 1..Len(parts) : (\A j \in 1..k : From(cwd, parts[j]) # d) => ~Has(From(cwd, parts[k]), act[2])
          \* a path given leads to the same file from anywhere
          /\ ~Bare(act[2]) => From(From(cwd, path), T!Name(act[2])) = From(cwd, act[2])
Steps == [][ /\ (act'[1] # "name" => name' = name) /\ (act'[1] # "path" => path' = path)
             /\ (act'[1] \in {"name", "path"} /\ ~Given(act'[2]) => <<name, path>>' = <<name, path>>) ]_vars
=============================================================================
