------------------------------- MODULE Files -------------------------------
(* Making directories, asking for paths and leaving a process's number in a file, in a tree of directories and files.
   A tree is a set of nodes <<names, kind, mode, content>>; the root, where relative paths start, is no node.  A path is
   text; "@" in front stands for the root's absolute path.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, Bitwise
CONSTANTS MNames, MPaths, MTriggers, MMax
VARIABLES tree, mask, act, out
vars == <<tree, mask, act, out>>
SLASH == 47
Dot == <<46>>
DotDot == <<46, 46>>
NAMEMAX == 255
PATHMAX == 4096           \* with its terminator
\* ------------------------------------------------------------------ paths
Split(p) == LET z == FoldLeft(LAMBDA y, c : IF c = SLASH THEN <<Append(y[1], y[2]), <<>>>> ELSE <<y[1], Append(y[2], c)>>, <<<<>>, <<>>>>, p)
            IN Append(z[1], z[2])
Names(p) == SelectSeq(Split(p), LAMBDA n : n # <<>> /\ n # <<64>>)
DirOnly(p) == p # <<>> /\ p[Len(p)] = SLASH                 \* a trailing separator asks for a directory
TooLong(p) == Len(p) >= PATHMAX \/ \E k \in 1..Len(Names(p)) : Len(Names(p)[k]) > NAMEMAX
Has(t, ns) == \E n \in t : n[1] = ns
At(t, ns) == CHOOSE n \in t : n[1] = ns
IsDirAt(t, ns) == ns = <<>> \/ (Has(t, ns) /\ At(t, ns)[2] = "dir")
\* where the names lead from the root: <<"at", node's names>>, <<"none">> when there is nothing, <<"bad">> when a file is in the way
Step1(t, w, n) == IF w[1] # "at" THEN <<"bad">>
                  ELSE IF ~IsDirAt(t, w[2]) THEN <<"bad">>
                  ELSE IF n = Dot THEN w
                  ELSE IF n = DotDot THEN <<"at", SubSeq(w[2], 1, Len(w[2]) - 1)>>
                  ELSE IF Has(t, Append(w[2], n)) THEN <<"at", Append(w[2], n)>> ELSE <<"none">>
Walk(t, ns) == FoldLeft(LAMBDA w, n : Step1(t, w, n), <<"at", <<>>>>, ns)
Exists(t, p) == p # <<>> /\ ~TooLong(p) /\ LET w == Walk(t, Names(p)) IN w[1] = "at" /\ (DirOnly(p) => IsDirAt(t, w[2]))
IsDir(t, p) == Exists(t, p) /\ IsDirAt(t, Walk(t, Names(p))[2])
\* ------------------------------------------------------------------ directories
\* the tree with every directory on the way made: <<tree, "ok" or not>>
MakeAll(t, p, m) ==
    LET z == FoldLeft(LAMBDA y, n : IF y[2][1] # "at" THEN y
                                    ELSE LET w == Step1(y[1], y[2], n) IN
                                         IF w[1] = "none" THEN <<y[1] \cup {<<Append(y[2][2], n), "dir", m, <<>>>>}, <<"at", Append(y[2][2], n)>>>>
                                         ELSE <<y[1], w>>,
                      <<t, <<"at", <<>>>>>>, Names(p))
    IN IF p = <<>> \/ TooLong(p) \/ z[2][1] # "at" \/ ~IsDirAt(z[1], z[2][2]) THEN <<z[1], FALSE>> ELSE <<z[1], TRUE>>
\* one directory only
MakeOne(t, p, m) ==
    LET ns == Names(p)
        up == Walk(t, SubSeq(ns, 1, Len(ns) - 1))
        w == Walk(t, ns)
    IN IF p = <<>> \/ TooLong(p) THEN <<t, FALSE>>
       ELSE IF IsDir(t, p) THEN <<t, TRUE>>
       ELSE IF w[1] = "none" /\ ns[Len(ns)] \notin {Dot, DotDot} /\ up[1] = "at" /\ IsDirAt(t, up[2])
            THEN <<t \cup {<<Append(up[2], ns[Len(ns)]), "dir", m, <<>>>>}, TRUE>> ELSE <<t, FALSE>>
Make(t, p, m, parents) == IF parents = 1 THEN MakeAll(t, p, m) ELSE MakeOne(t, p, m)
Masked(m) == m - (m & mask)
Same(t) == {<<n[1], n[2]>> : n \in t}
\* what may come of making a directory: before, what others made meanwhile, whether the system refused, and after
Made(before, others, refused, p, mode, parents, r, after) ==
    LET now == before \cup others
        full == Make(now, p, mode, parents)
    IN /\ r = (IF IsDir(after, p) THEN 0 ELSE -1)
       /\ now \subseteq after
       /\ Same(after \ now) \subseteq Same(full[1])
       /\ (~refused /\ Make(before, p, mode, parents)[2] /\ full[2]) => r = 0
       /\ IsDir(after, p) => LET d == Walk(after, Names(p))[2] IN (d # <<>> /\ ~Has(now, d)) => At(after, d)[3] = mode
\* ------------------------------------------------------------------ the directory that has something in it
\* the path itself, then cut at each separator from the last; text
Cuts(p) == {k \in 0..Len(p) : k = Len(p) \/ p[k + 1] = SLASH}
Found(t, p, g) == {k \in Cuts(p) : SubSeq(p, 1, k) # <<>> /\ Exists(t, SubSeq(p, 1, k) \o <<SLASH>> \o g)}
Base(t, p, g) == IF Found(t, p, g) = {} THEN <<0>> ELSE LET k == CHOOSE k \in Found(t, p, g) : \A j \in Found(t, p, g) : j <= k IN SubSeq(p, 1, k) \o <<SLASH>>
\* separators may be doubled where they were in the path
RECURSIVE Single(_)
Single(p) == IF Len(p) < 2 THEN p ELSE IF p[1] = SLASH /\ p[2] = SLASH THEN Single(Tail(p)) ELSE <<p[1]>> \o Single(Tail(p))
\* ------------------------------------------------------------------ a process's number in a file
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
Text(pid) == Dec(pid) \o <<10>>
FileAt(t, p) == ~DirOnly(p) /\ Exists(t, p) /\ ~IsDir(t, p)
Writable(t, p) == LET ns == Names(p) up == Walk(t, SubSeq(ns, 1, Len(ns) - 1)) IN
                  /\ p # <<>> /\ ~TooLong(p) /\ ~DirOnly(p) /\ ns # <<>> /\ ns[Len(ns)] \notin {Dot, DotDot}
                  /\ up[1] = "at" /\ IsDirAt(t, up[2]) /\ ~IsDirAt(t, Append(up[2], ns[Len(ns)]))
Target(t, p) == LET ns == Names(p) IN Append(Walk(t, SubSeq(ns, 1, Len(ns) - 1))[2], ns[Len(ns)])
PidMode == 420                                              \* 0644
Write(t, p, c) == LET d == Target(t, p) IN (t \ {n \in t : n[1] = d}) \cup {<<d, "file", IF Has(t, d) THEN At(t, d)[3] ELSE Masked(PidMode), c>>}
\* ------------------------------------------------------------------ calls
NoFile == <<0>>
After(a) ==
    CASE a[1] = "mkdir" -> Make(tree, a[2], Masked(a[3]), a[4])[1]
      [] a[1] = "writepid" -> IF a[2] # NoFile /\ Writable(tree, a[2]) THEN Write(tree, a[2], Text(a[3])) ELSE tree
      [] a[1] = "put" -> Write(tree, a[2], a[3])
      [] a[1] = "clear" -> {}
      [] OTHER -> tree
Result(a) ==
    CASE a[1] = "mkdir" -> IF Make(tree, a[2], Masked(a[3]), a[4])[2] THEN 0 ELSE -1
      [] a[1] = "exists" -> IF Exists(tree, a[2]) THEN 0 ELSE -1
      [] a[1] = "basedir" -> Single(Base(tree, a[2], a[3]))
      [] a[1] = "writepid" -> IF a[2] # NoFile /\ Writable(tree, a[2]) THEN 0 ELSE -1
      [] OTHER -> 0
Do(a) == /\ act' = a /\ out' = Result(a) /\ tree' = After(a)
         /\ mask' = IF a[1] = "umask" THEN a[2] ELSE mask
Init == tree = {} /\ mask = 0 /\ act = <<"start">> /\ out = 0
\* ------------------------------------------------------------------ model
Mkdir == \E p \in MPaths, f \in {0, 1} : Cardinality(Make(tree, p, 493, f)[1]) <= MMax /\ Do(<<"mkdir", p, 493, f>>)
Ask == \E p \in MPaths : Do(<<"exists", p>>)
Find == \E p \in MPaths, g \in MTriggers : p # <<>> /\ Do(<<"basedir", p, g>>)
Pid == \E p \in MPaths \cup {NoFile} : Cardinality(tree) < MMax /\ Do(<<"writepid", p, 4711>>)
Clear == tree # {} /\ Do(<<"clear">>)
Next == Mkdir \/ Ask \/ Find \/ Pid \/ Clear
Spec == Init /\ [][Next]_vars
View == <<tree, act>>
GView == tree
Emit == PrintT("@T" \o ToJson([f |-> ToString(tree), a |-> act', t |-> ToString(tree'), i |-> tree = {}]))
A == <<113, 97>>
B == <<113, 98>>
MPathsSmall == {<<>>, <<47>> , <<64>>} \cup
    {s : s \in {A, B, A \o <<47>>, A \o <<47>> \o A, A \o <<47>> \o B, A \o <<47, 47>> \o B, <<46, 47>> \o A, A \o <<47, 46>>, A \o <<47, 46, 46>>, A \o <<47, 46, 46, 47>> \o B,
                A \o <<47>> \o B \o <<47>>, A \o <<47>> \o A \o <<47>> \o B, <<64, 47>> \o A, <<64, 47>> \o A \o <<47>> \o B}}
MPathsUsed == MPathsSmall \ {<<47>>}
MTriggersSmall == {A, B, <<46>>, A \o <<47>> \o B}
\* ------------------------------------------------------------------ what users rely on
Laws == /\ \A n \in tree : n[2] \in {"dir", "file"} /\ (Len(n[1]) > 1 => IsDirAt(tree, SubSeq(n[1], 1, Len(n[1]) - 1)))    \* a tree
        /\ Cardinality({n[1] : n \in tree}) = Cardinality(tree)
        /\ CASE act[1] = "mkdir" -> out = (IF IsDir(tree, act[2]) THEN 0 ELSE -1)                                            \* 0 says it is there
             [] act[1] = "writepid" -> out = 0 => FileAt(tree, act[2]) /\ At(tree, Walk(tree, Names(act[2]))[2])[4] = <<52, 55, 49, 49, 10>>
             [] act[1] = "basedir" -> out # <<0>> => /\ IsDir(tree, out) /\ Exists(tree, out \o act[3])
                                                     /\ \E k \in 0..Len(act[2]) : Walk(tree, Names(SubSeq(act[2], 1, k))) = Walk(tree, Names(out))
             [] OTHER -> TRUE
Steps == [][ /\ act'[1] = "mkdir" => Made(tree, {}, FALSE, act'[2], act'[3], act'[4], out', tree')                     \* the rule used on recorded calls
             /\ act'[1] # "clear" => \A n \in tree : \E m \in tree' : m[1] = n[1] /\ m[2] = n[2] /\ m[3] = n[3]     \* nothing goes away
             /\ act'[1] \in {"exists", "basedir"} => tree' = tree
             /\ (act'[1] \in {"mkdir", "writepid"} /\ out' = -1) => (tree' = tree \/ (act'[1] = "mkdir" /\ act'[4] = 1)) ]_vars
=============================================================================
