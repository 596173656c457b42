-------------------------------- MODULE Set --------------------------------
(* zt_set: three finite sets and the set algebra over them.  The three-operand calls add to
   the destination what they compute; operands other than the destination stay as they are. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Elems, N
VARIABLES s, out, act
vars == <<s, out, act>>
B(x) == IF x THEN 1 ELSE 0

Insert(i, x) == /\ act' = <<"insert", i, x>> /\ out' = B(x \in s[i]) /\ s' = [s EXCEPT ![i] = @ \cup {x}]
Remove(i, x) == /\ act' = <<"remove", i, x>> /\ out' = B(x \notin s[i]) /\ s' = [s EXCEPT ![i] = @ \ {x}]
Member(i, x) == /\ act' = <<"member", i, x>> /\ out' = B(x \in s[i]) /\ UNCHANGED s
\* many at once, one call each; out counts the calls that had nothing to do
Fill(i, x, y) == /\ act' = <<"fill", i, x, y>> /\ out' = Cardinality(s[i] \cap (x..y)) /\ s' = [s EXCEPT ![i] = @ \cup (x..y)]
Drop(i, x, y) == /\ act' = <<"drop", i, x, y>> /\ out' = Cardinality((x..y) \ s[i]) /\ s' = [s EXCEPT ![i] = @ \ (x..y)]
Union(d, a, b) == /\ act' = <<"union", d, a, b>> /\ out' = 0 /\ s' = [s EXCEPT ![d] = @ \cup s[a] \cup s[b]]
Inter(d, a, b) == /\ act' = <<"inter", d, a, b>> /\ out' = 0 /\ s' = [s EXCEPT ![d] = @ \cup (s[a] \cap s[b])]
Diff(d, a, b) == /\ act' = <<"diff", d, a, b>> /\ out' = 0 /\ s' = [s EXCEPT ![d] = @ \cup (s[a] \ s[b])]
Subset(a, b) == /\ act' = <<"subset", a, b>> /\ out' = B(s[a] \subseteq s[b]) /\ UNCHANGED s
Equal(a, b) == /\ act' = <<"equal", a, b>> /\ out' = B(s[a] = s[b]) /\ UNCHANGED s
Size(i) == /\ act' = <<"size", i>> /\ out' = Cardinality(s[i]) /\ UNCHANGED s
EachStop(i, n) == /\ act' = <<"eachstop", i, n>> /\ UNCHANGED s
                  /\ out' = IF n <= Cardinality(s[i]) THEN <<5, n>> ELSE <<0, Cardinality(s[i])>>
\* destroy hands every element to the destructor exactly once (and the driver starts a fresh set)
Destroy(i) == /\ act' = <<"destroy", i>> /\ out' = s[i] /\ s' = [s EXCEPT ![i] = {}]

Init == s = [i \in 1..N |-> {}] /\ out = 0 /\ act = <<"init">>
Next == \E i, j, k \in 1..N :
           \/ Union(i, j, k) \/ Inter(i, j, k) \/ Diff(i, j, k)
           \/ k = 1 /\ (Subset(i, j) \/ Equal(i, j))
           \/ j = 1 /\ k = 1 /\ (Size(i) \/ Destroy(i) \/ \E n \in 1..3 : EachStop(i, n))
           \/ j = 1 /\ k = 1 /\ \E x \in Elems : Insert(i, x) \/ Remove(i, x) \/ Member(i, x) \/ \E y \in Elems : x < y /\ (Fill(i, x, y) \/ Drop(i, x, y))
Spec == Init /\ [][Next]_vars
View == s
TypeOK == s \in [1..N -> SUBSET Elems]
\* the algebra, as the calls answer it
EqualIsMutualSubset == [][act'[1] = "equal" => (out' = 1) = (s[act'[2]] \subseteq s[act'[3]] /\ s[act'[3]] \subseteq s[act'[2]])]_vars
OperandsKept == [][act'[1] \in {"union", "inter", "diff"} => \A i \in 1..N : i # act'[2] => s'[i] = s[i]]_vars
IntoEmpty == [][act'[1] = "inter" /\ s[act'[2]] = {} => s'[act'[2]] = s[act'[3]] \cap s[act'[4]]]_vars
Partition == [][act'[1] = "diff" /\ s[act'[2]] = {} =>
                   /\ s'[act'[2]] \cap s[act'[4]] = {} \/ act'[2] = act'[4]
                   /\ s'[act'[2]] \cup (s[act'[3]] \cap s[act'[4]]) = s[act'[3]] \cup (s[act'[3]] \cap s[act'[4]])]_vars
Emit == PrintT("@T" \o ToJson([f |-> ToString(View), a |-> act', t |-> ToString(View'), i |-> TLCGet("level") = 1]))
=============================================================================
