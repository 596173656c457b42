-------------------------------- MODULE Cfg --------------------------------
(* zt_cfg: typed configuration variables, read from INI files and set by the program.  Text is a sequence of
   character codes.  cfg maps <<block, name>> to a value; a reference holds the key it stands for.            *)
EXTENDS Num, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Keys, Texts, MaxSets
VARIABLES cfg,     \* key -> [t: type, v: value]
          open, out, act
vars == <<cfg, open, out, act>>
Fn == [x \in {} |-> 0]
With(f, k, v) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]]

(* ---- the text of a value ---- *)
Blank(c) == c \in {32, 9}
YesTrue == {<<121,101,115>>, <<116,114,117,101>>}
NoFalse == {<<110,111>>, <<102,97,108,115,101>>}
Quoted(s) == Len(s) >= 2 /\ s[1] \in {39, 34} /\ s[Len(s)] = s[1]
Text(s) == IF Quoted(s) THEN SubSeq(s, 2, Len(s) - 1) ELSE s
Dot(s) == FirstAt(s, {46})
KeyOf(s) == <<SubSeq(s, 1, Dot(s) - 1), From(s, Dot(s) + 1)>>
\* what following references from k leads to
RECURSIVE Ends(_, _)
Ends(f, k) == IF f[k].t = "ref" THEN Ends(f, f[k].v) ELSE k
\* block.name stands for that variable when it exists already, unless that would lead back to the variable itself
IsRef(f, k, s) == /\ Dot(s) <= Len(s) /\ KeyOf(s) \in DOMAIN f /\ KeyOf(s) # k
                  /\ Ends(With(f, k, [t |-> "string", v |-> s]), KeyOf(s)) # k
Interp(f, k, s) == IF IsInt(s) THEN [t |-> "int", v |-> IntVal(s)]
                   ELSE IF IsFloat(s) THEN [t |-> "float", v |-> FloatVal(s)]
                   ELSE IF Low(s) \in YesTrue THEN [t |-> "bool", v |-> <<49>>]
                   ELSE IF Low(s) \in NoFalse THEN [t |-> "bool", v |-> <<48>>]
                   ELSE IF IsRef(f, k, Text(s)) THEN [t |-> "ref", v |-> KeyOf(Text(s))]
                   ELSE [t |-> "string", v |-> Text(s)]
Put(f, k, s) == With(f, k, Interp(f, k, s))

(* ---- files ---- *)
RECURSIVE Ltrim(_), Rtrim(_), CutC(_, _), VarOf(_), Load(_, _, _)
Ltrim(s) == IF s # <<>> /\ Blank(s[1]) THEN Ltrim(From(s, 2)) ELSE s
Rtrim(s) == IF s # <<>> /\ Blank(s[Len(s)]) THEN Rtrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
CutC(s, i) == IF i > Len(s) THEN s ELSE IF s[i] \in {59, 35} THEN SubSeq(s, 1, i - 1) ELSE CutC(s, i + 1)
NameChar(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c = 95
VarOf(s) == IF s # <<>> /\ NameChar(s[1]) THEN <<s[1]>> \o VarOf(From(s, 2)) ELSE <<>>
\* a comment starts at ; or # outside quotes
Value(s) == LET v == Ltrim(s)
                q == IF v # <<>> /\ v[1] \in {39, 34} THEN FirstAt(From(v, 2), {v[1]}) + 1 ELSE 1
            IN Rtrim(CutC(v, IF q <= Len(v) THEN q ELSE 1))
\* lines of more than 1022 characters are too long (the exact limit is not relied upon)
MaxLine == 1022
\* r: [ok, f, b: current block]
Line(r, s0) == LET s == Ltrim(s0) eq == FirstAt(s, {61}) br == FirstAt(s, {93}) IN
    IF s = <<>> \/ s[1] \in {59, 35} THEN r
    ELSE IF s[1] = 91 THEN IF br - 2 > MaxLine + 1 THEN [r EXCEPT !.ok = FALSE] ELSE [r EXCEPT !.b = SubSeq(s, 2, br - 1)]
    ELSE IF Len(s) > MaxLine \/ eq > Len(s) THEN [r EXCEPT !.ok = FALSE]
    ELSE IF Ltrim(From(s, eq + 1)) = <<>> THEN [r EXCEPT !.ok = FALSE]
    ELSE [r EXCEPT !.f = Put(@, <<r.b, VarOf(s)>>, Value(From(s, eq + 1)))]
Global == <<71,108,111,98,97,108>>
Load(r, lines, i) == IF ~r.ok \/ i > Len(lines) THEN r ELSE Load(Line(r, lines[i]), lines, i + 1)

Open(lines) == /\ ~open /\ act' = <<"open", lines>>
               /\ LET r == Load([ok |-> TRUE, f |-> Fn, b |-> Global], lines, 1) IN
                  IF r.ok THEN open' = TRUE /\ cfg' = r.f /\ out' = 1 ELSE out' = 0 /\ UNCHANGED <<open, cfg>>
OpenMissing == ~open /\ act' = <<"openmissing">> /\ out' = 0 /\ UNCHANGED <<open, cfg>>
Nothing == act' = <<"nothing">> /\ out' = 0 /\ UNCHANGED <<open, cfg>>
Close == open /\ act' = <<"close">> /\ out' = 0 /\ open' = FALSE /\ cfg' = Fn
Set(k, s) == open /\ act' = <<"set", k, s>> /\ out' = 1 /\ cfg' = Put(cfg, k, s) /\ UNCHANGED open
\* the value, or FAIL when there is no such variable or it is of another type
FAIL == <<-1>>
Look(f, k, t) == IF k \in DOMAIN f /\ f[Ends(f, k)].t = t THEN f[Ends(f, k)].v ELSE FAIL
Get(k, t) == open /\ act' = <<"get", k, t>> /\ out' = Look(cfg, k, t) /\ UNCHANGED <<cfg, open>>

Types == {"int", "float", "bool", "string"}
Init == cfg = Fn /\ open = FALSE /\ out = 0 /\ act = <<"init">>
Next == \/ Open(<<>>) \/ Close \/ OpenMissing \/ Nothing
        \/ \E k \in Keys : (\E s \in Texts : Set(k, s)) \/ (\E t \in Types : Get(k, t))
Spec == Init /\ [][Next]_vars
View == <<cfg, open>>
RECURSIVE Chain(_, _)
Chain(k, n) == n > 0 /\ (cfg[k].t # "ref" \/ (cfg[k].v \in DOMAIN cfg /\ Chain(cfg[k].v, n - 1)))
Acyclic == \A k \in DOMAIN cfg : Chain(k, Cardinality(DOMAIN cfg))
OneType == \A k \in DOMAIN cfg : Cardinality({t \in Types : Look(cfg, k, t) # FAIL}) = 1
RefFollows == \A k \in DOMAIN cfg : cfg[k].t = "ref" => \A t \in Types : Look(cfg, k, t) = Look(cfg, cfg[k].v, t)
SetOnly == [][act'[1] = "set" => \A k \in DOMAIN cfg : k # act'[2] => cfg'[k] = cfg[k]]_vars
TheKeys == {<<<<97>>, <<120>>>>, <<<<97>>, <<121>>>>, <<<<98>>, <<120>>>>}
TheTexts == {<<49,55>>, <<121,69,115>>, <<49,46,53>>, <<104>>, <<97,46,120>>, <<97,46,121>>, <<98,46,120>>}
FewTexts == {<<49,55>>, <<104>>, <<97,46,120>>, <<97,46,121>>}
FewKeys == {<<<<97>>, <<120>>>>, <<<<97>>, <<121>>>>}
\* one state, one name, however its functions and records came about
KeySeq == SetToSeq(Keys)
Name(f, o) == ToString(<<o>>) \o ToString([k \in 1..Len(KeySeq) |-> IF KeySeq[k] \in DOMAIN f THEN <<f[KeySeq[k]].t, f[KeySeq[k]].v>> ELSE <<>>])
Emit == PrintT("@T" \o ToJson([f |-> Name(cfg, open), a |-> act', t |-> Name(cfg', open'), i |-> TLCGet("level") = 1]))
=============================================================================
