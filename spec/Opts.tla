-------------------------------- MODULE Opts --------------------------------
(* zt_opts: a command line is processed from the left up to the first argument that is not an option; what each
   option does to its variable is the state.  Text is a sequence of character codes.                           *)
EXTENDS Num, FiniteSets, TLC, Json
CONSTANTS Args, MaxArgs, TheDefs
VARIABLES defs,   \* sequence of [s: short name (0: none), l: long name (<<>>: none), k: kind, h: has help]
          val,    \* option number -> what it has been set to
          out, act
vars == <<defs, val, out, act>>
MINUS == 45
EQ == 61
FirstIx(s, c) == FirstAt(s, {c})
TakesValue(k) == k \in {"long", "intmax", "bool", "string", "array"}
Start(d) == [i \in 1..Len(d) |-> CASE d[i].k = "flag" -> 0
                                   [] d[i].k \in {"null", "next"} -> <<>>
                                   [] d[i].k = "array" -> <<>>
                                   [] OTHER -> <<0>>]       \* untouched
EINVAL == 22
ERANGE == 34
\* r: [e: error or 0, v: values, i: next argument].  NoVal marks a missing value.
NoVal == <<-1>>
LowerS(s) == Low(s)
Yes(s) == IF Len(s) = 1 THEN Low(s) \in {<<116>>, <<121>>} ELSE Low(s) \in {<<116,114,117,101>>, <<121,101,115>>}
No(s) == IF Len(s) = 1 THEN Low(s) \in {<<102>>, <<110>>} ELSE Low(s) \in {<<102,97,108,115,101>>, <<110,111>>}
Err(r, c) == [r EXCEPT !.e = c]
Store(r, o, x) ==
    LET k == defs[o].k IN
    CASE x = NoVal -> Err(r, EINVAL)
      [] k = "string" -> [r EXCEPT !.v[o] = x]
      [] k = "array" -> [r EXCEPT !.v[o] = Append(@, x)]
      [] k = "bool" -> IF Yes(x) THEN [r EXCEPT !.v[o] = <<49>>] ELSE IF No(x) THEN [r EXCEPT !.v[o] = <<48>>] ELSE Err(r, EINVAL)
      [] OTHER -> IF ~IsInt(x) THEN Err(r, EINVAL) ELSE IF ~FitsLong(IntVal(x)) THEN Err(r, ERANGE) ELSE [r EXCEPT !.v[o] = IntVal(x)]
Next1(argv, i) == IF i < Len(argv) THEN argv[i + 1] ELSE NoVal
\* option o at argument i; att: the value attached to it, NoVal when there is none
Apply(r, argv, i, o, att) ==
    LET k == defs[o].k IN
    IF TakesValue(k) THEN IF att # NoVal THEN [Store(r, o, att) EXCEPT !.i = i + 1] ELSE [Store(r, o, Next1(argv, i)) EXCEPT !.i = i + 2]
    ELSE IF k = "flag" THEN [r EXCEPT !.v[o] = @ + 1, !.i = i + 1]
    ELSE IF k = "next" /\ i < Len(argv) THEN [r EXCEPT !.i = IF att = NoVal THEN i + 2 ELSE i + 1]    \* a callback that uses up the next argument
    ELSE [r EXCEPT !.i = i + 1]
Find(P(_)) == LET S == {o \in 1..Len(defs) : P(o)} IN IF S = {} THEN 0 ELSE CHOOSE o \in S : \A q \in S : o <= q
ByShort(c) == Find(LAMBDA o : defs[o].s = c)
ByLong(n) == Find(LAMBDA o : n # <<>> /\ defs[o].l = n)
RECURSIVE Shorts(_, _, _, _), Walk(_, _)
\* the short options of argument i from character j on
Shorts(r, argv, i, j) ==
    LET a == argv[i] o == ByShort(a[j]) rest == From(a, j + 1) IN
    IF o = 0 THEN Err(r, EINVAL)
    ELSE IF TakesValue(defs[o].k)
         THEN Apply(r, argv, i, o, IF rest = <<>> THEN NoVal ELSE IF rest[1] = EQ THEN From(rest, 2) ELSE rest)
         ELSE LET q == Apply(r, argv, i, o, NoVal) IN
              IF q.e # 0 \/ q.i > i + 1 \/ rest = <<>> \/ rest[1] = EQ THEN q ELSE Shorts(q, argv, i, j + 1)
One(r, argv) ==
    LET i == r.i a == argv[i] IN
    IF Len(a) >= 2 /\ a[2] = MINUS
    THEN LET b == From(a, 3) n == SubSeq(b, 1, FirstIx(b, EQ) - 1) o == ByLong(n) IN
         IF o = 0 THEN Err(r, EINVAL)
         ELSE Apply(r, argv, i, o, IF FirstIx(b, EQ) > Len(b) THEN NoVal ELSE From(b, FirstIx(b, EQ) + 1))
    ELSE IF Len(a) = 1 THEN Err(r, EINVAL) ELSE Shorts(r, argv, i, 2)
Walk(r, argv) == IF r.e # 0 \/ r.i > Len(argv) \/ argv[r.i] = <<>> \/ argv[r.i][1] # MINUS THEN r
                 ELSE Walk(One(r, argv), argv)
Alnum(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
\* every option has a name and help, short names are letters or digits, no name occurs twice
Valid(d) == /\ \A i \in 1..Len(d) : (d[i].s # 0 \/ d[i].l # <<>>) /\ d[i].h /\ (d[i].s # 0 => Alnum(d[i].s))
            /\ \A i, k \in 1..Len(d) : i # k => (d[i].s = 0 \/ d[i].s # d[k].s) /\ (d[i].l = <<>> \/ d[i].l # d[k].l)
\* out: <<error, how many arguments were used>>
Process(argv) ==
    /\ act' = <<"process", argv>> /\ UNCHANGED defs
    /\ IF ~Valid(defs) THEN out' = <<EINVAL, 0>> /\ UNCHANGED val
       ELSE LET r == Walk([e |-> 0, v |-> val, i |-> 2], argv) IN
            /\ val' = r.v
            /\ out' = IF r.e # 0 THEN <<r.e, 0>> ELSE <<0, r.i - 1>>
Define(d) == act' = <<"define", d>> /\ defs' = d /\ val' = Start(d) /\ out' = <<0, 0>>

\* the usage text, whatever its line breaks and indentation: all the options and all the words of their help, in order
Bare(s) == SelectSeq(s, LAMBDA c : c \notin {32, 10})
RECURSIVE AllHelp(_, _)
AllHelp(i, texts) == IF i > Len(defs) THEN <<>> ELSE
    (IF defs[i].s # 0 THEN <<MINUS, defs[i].s>> ELSE <<>>) \o (IF defs[i].s # 0 /\ defs[i].l # <<>> THEN <<44>> ELSE <<>>)
    \o (IF defs[i].l # <<>> THEN <<MINUS, MINUS>> \o defs[i].l ELSE <<>>) \o Bare(texts[i]) \o AllHelp(i + 1, texts)
UsageText(name, help, texts) == <<85,115,97,103,101,58>> \o Bare(name) \o Bare(help) \o <<79,112,116,105,111,110,115,58>> \o AllHelp(1, texts)
\* out: the text without blanks, and whether its lines fit on a screen
Usage(name, help, texts) == /\ act' = <<"usage", name, help, texts>> /\ UNCHANGED <<defs, val>>
                            /\ out' = <<UsageText(name, help, texts), TRUE>>

Init == defs = TheDefs /\ val = Start(TheDefs) /\ out = <<0, 0>> /\ act = <<"init">>
Next == \E n \in 0..MaxArgs : \E av \in [1..n -> Args] : Process(<<<<112>>>> \o av)
Spec == Init /\ [][Next]_vars
\* every command line, each from the fresh state
GraphSpec == Init /\ [][act[1] = "init" /\ Next]_vars
View == <<val, out>>
Fresh == val = Start(defs)
\* properties of one command line
Prog == <<112>>
R(argv) == Walk([e |-> 0, v |-> Start(TheDefs), i |-> 2], argv)
Used == Fresh => \A n \in 0..2 : \A av \in [1..n -> Args] : LET r == R(<<Prog>> \o av) IN r.e = 0 => r.i <= n + 2
\* processing what is left after a stop, or the two halves of a line cut between options, comes to the same
Grouping == Fresh => \A a, b \in {x \in Args : Len(x) = 2 /\ x[1] = MINUS /\ x[2] # MINUS} :
               (ByShort(a[2]) # 0 /\ ByShort(b[2]) # 0 /\ ~TakesValue(defs[ByShort(a[2])].k)) =>
                 LET one == R(<<Prog, a \o <<b[2]>>, <<55>>>>) two == R(<<Prog, a, b, <<55>>>>) IN one.v = two.v /\ one.e = two.e
S(str) == str
D(sn, ln, k) == [s |-> sn, l |-> ln, k |-> k, h |-> TRUE]
Defs3 == <<D(113, <<>>, "flag"), D(108, <<108,111>>, "long"), D(55, <<>>, "flag"), D(0, <<115,116>>, "string"), D(98, <<98,111>>, "bool")>>
Args3 == {<<45,113>>, <<45,108>>, <<45,108,55>>, <<45,108,61,55>>, <<45,113,113>>, <<45,113,108>>, <<45,113,108,55>>, <<45,122>>, <<45,113,122>>,
          <<55>>, <<120>>, <<45,45,108,111>>, <<45,45,108,111,61,55>>, <<45,45,115,116,61,97,61,98>>, <<45,98>>, <<89>>, <<45,45>>, <<45,55>>}
Limit == \A i \in 1..Len(val) : defs[i].k # "flag" \/ val[i] <= 2
Emit == PrintT("@T" \o ToJson([f |-> ToString(View), a |-> act', t |-> ToString(View'), i |-> TLCGet("level") = 1]))
=============================================================================
