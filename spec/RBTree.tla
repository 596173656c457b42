------------------------------- MODULE RBTree -------------------------------
(* zt_rbt: an ordered set of caller-owned nodes held in a red-black tree.
   tree is the shape of the tree: a node is <<colour, left, key, right>>, Nil is <<>>.
   Which of the valid shapes an update produces is the implementation's choice.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys
VARIABLES S,      \* the keys held
          tree, out, act
vars == <<S, tree, out, act>>
RED == 0
BLACK == 1
Nil == <<>>
NONE == 0         \* keys are > 0

\* ---- valid shapes ----
RECURSIVE Elems(_), BH(_), NoRedRed(_), Ordered(_, _, _), Height(_)
Elems(t) == IF t = Nil THEN {} ELSE Elems(t[2]) \cup {t[3]} \cup Elems(t[4])
Col(t) == IF t = Nil THEN BLACK ELSE t[1]
\* black height, -1 when the two sides of some node disagree
BH(t) == IF t = Nil THEN 0
         ELSE LET a == BH(t[2]) b == BH(t[4]) IN
              IF a = -1 \/ b = -1 \/ a # b THEN -1 ELSE a + t[1]
NoRedRed(t) == t = Nil \/ /\ t[1] = RED => Col(t[2]) = BLACK /\ Col(t[4]) = BLACK
                          /\ NoRedRed(t[2]) /\ NoRedRed(t[4])
\* lo < every key < hi
Ordered(t, lo, hi) == t = Nil \/ /\ lo < t[3] /\ t[3] < hi
                                 /\ Ordered(t[2], lo, t[3]) /\ Ordered(t[4], t[3], hi)
Height(t) == IF t = Nil THEN 0 ELSE LET a == Height(t[2]) b == Height(t[4]) IN 1 + (IF a > b THEN a ELSE b)
Valid(t) == Ordered(t, 0, 1000000) /\ NoRedRed(t) /\ BH(t) # -1 /\ Col(t) = BLACK

RECURSIVE Shapes(_)
Shapes(Z) == IF Z = {} THEN {Nil}
             ELSE UNION {LET Lo == {z \in Z : z < k} Hi == {z \in Z : z > k} IN
                         {<<c, a, k, b>> : c \in {RED, BLACK}, a \in {x \in Shapes(Lo) : NoRedRed(x) /\ BH(x) # -1},
                                          b \in {x \in Shapes(Hi) : NoRedRed(x) /\ BH(x) # -1}} : k \in Z}
ValidShapes(Z) == {t \in Shapes(Z) : Valid(t)}

Least(Z) == IF Z = {} THEN NONE ELSE CHOOSE z \in Z : \A y \in Z : z <= y
Greatest(Z) == IF Z = {} THEN NONE ELSE CHOOSE z \in Z : \A y \in Z : z >= y

\* ---- the calls; t is the shape the update left behind ----
Becomes(Z, t) == S' = Z /\ tree' = t /\ Elems(t) = Z /\ Valid(t)
\* answers the node already holding the key, or none
Insert(k, t) == /\ act' = <<"insert", k>>
                /\ IF k \in S THEN out' = k /\ UNCHANGED <<S, tree>> /\ t = tree
                   ELSE out' = NONE /\ Becomes(S \cup {k}, t)
Remove(k, t) == /\ k \in S /\ act' = <<"remove", k>> /\ out' = k /\ Becomes(S \ {k}, t)
Find(k) == /\ act' = <<"find", k>> /\ out' = (IF k \in S THEN k ELSE NONE) /\ UNCHANGED <<S, tree>>
NFind(k) == /\ act' = <<"nfind", k>> /\ out' = Least({z \in S : z >= k}) /\ UNCHANGED <<S, tree>>
Succ(k) == /\ k \in S /\ act' = <<"next", k>> /\ out' = Least({z \in S : z > k}) /\ UNCHANGED <<S, tree>>
Min == /\ act' = <<"min">> /\ out' = Least(S) /\ UNCHANGED <<S, tree>>
Max == /\ act' = <<"max">> /\ out' = Greatest(S) /\ UNCHANGED <<S, tree>>
\* an in-order walk: every key once, ascending
IsWalk(w) == Len(w) = Cardinality(S) /\ {w[i] : i \in 1..Len(w)} = S /\ \A i \in 1..(Len(w)-1) : w[i] < w[i+1]
Walk(w) == /\ act' = <<"walk">> /\ IsWalk(w) /\ out' = w /\ UNCHANGED <<S, tree>>
\* the removal-safe walk, the body removing the keys of D
WalkDel(D, w, t) == /\ act' = <<"walkdel", D>> /\ IsWalk(w) /\ out' = w /\ Becomes(S \ D, t)

RECURSIVE SeqOf(_)
SeqOf(Z) == IF Z = {} THEN <<>> ELSE <<Least(Z)>> \o SeqOf(Z \ {Least(Z)})

Init == S = {} /\ tree = Nil /\ out = NONE /\ act = <<"init">>
Next == \/ \E k \in Keys : \/ k \in S /\ Insert(k, tree)
                           \/ k \notin S /\ \E t \in ValidShapes(S \cup {k}) : Insert(k, t)
                           \/ k \in S /\ \E t \in ValidShapes(S \ {k}) : Remove(k, t)
                           \/ Find(k) \/ NFind(k) \/ Succ(k)
        \/ Min \/ Max \/ Walk(SeqOf(S))
        \/ \E D \in SUBSET Keys : \E t \in ValidShapes(S \ D) : WalkDel(D, SeqOf(S), t)
Spec == Init /\ [][Next]_vars
View == <<S, tree>>
SView == S
Agree == Elems(tree) = S /\ Valid(tree)
\* a red-black tree of n keys is at most 2*log2(n+1) high
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Balanced == Pow2((Height(tree) + 1) \div 2) <= Cardinality(S) + 1
Emit == PrintT("@T" \o ToJson([f |-> ToString(S), a |-> act', t |-> ToString(S'), i |-> TLCGet("level") = 1]))
=============================================================================
