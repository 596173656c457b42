------------------------------- MODULE Macros -------------------------------
(* The helper macros: what they compute for any arguments, written as any expressions.  A word is the set of its bits. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS MVals, MBits
VARIABLES act, out
vars == <<act, out>>
Abs(x) == IF x < 0 THEN -x ELSE x
Low(x, y) == IF x < y THEN x ELSE y
High(x, y) == IF x > y THEN x ELSE y
Set(s) == {s[k] : k \in 1..Len(s)}
Sorted(S) == SetToSortSeq(S, <)
Holds(x) == IF x THEN 1 ELSE 0
\* how many bits of it a word is used with
Wide(t) == CASE t = "u8" -> 8 [] t = "u16" -> 16 [] t = "u32" -> 32 [] t = "int" -> 31 [] OTHER -> 64
Result(a) ==
    CASE a[1] = "abs" -> Abs(a[2] - a[3])
      [] a[1] = "clamp" -> Low(High(a[2] - a[3], a[4]), a[4] + a[5])
      [] a[1] = "ceiling" -> Low(a[2] - a[3], a[4])
      [] a[1] = "floor" -> High(a[2] - a[3], a[4])
      [] a[1] = "max" -> High(a[2] - a[3], a[4])
      [] a[1] = "min" -> Low(a[2] - a[3], a[4])
      [] a[1] = "array" -> <<a[3], a[2] * a[3]>>                       \* how many, and where it ends
      [] a[1] = "member" -> TRUE
      [] a[1] = "indent" -> 5 * a[2]
      [] a[1] = "pad" -> (a[2] * (a[3] + a[4])) + a[5]
      [] a[1] = "to" -> a[2] - a[4]                                    \* steps and what is left of one: as far as there
      [] a[1] = "bits" -> <<Sorted({x \in Set(a[4]) \cup Set(a[5]) : x < Wide(a[2])}), Sorted(Set(a[4]) \ Set(a[5])), Holds(Set(a[4]) \cap Set(a[5]) # {}), Holds(Set(a[4]) \cap Set(a[5]) = {})>>
Do(a) == act' = a /\ out' = Result(a)
Init == act = <<"start">> /\ out = 0
MNum == act[1] = "start" /\ \E op \in {"ceiling", "floor", "max", "min"}, x, y, z \in MVals : Do(<<op, x, y, z>>)
MAbs == act[1] = "start" /\ \E x, y \in MVals : Do(<<"abs", x, y>>)
MClamp == act[1] = "start" /\ \E x, y, z \in MVals, w \in {v \in MVals : v >= 0} : Do(<<"clamp", x, y, z, w>>)
MArray == act[1] = "start" /\ \E s \in {1, 4, 12}, n \in {1, 2, 7, 100} : Do(<<"array", s, n>>)
MMember == act[1] = "start" /\ \E m \in 0..4 : Do(<<"member", m>>)
MIndent == act[1] = "start" /\ \E n \in 0..7 : Do(<<"indent", n>>)
MPad == act[1] = "start" /\ \E n \in 0..4, s, t, q \in 0..3 : Do(<<"pad", n, s, t, q>>)
MTo == act[1] = "start" /\ \E n \in {0, 3, 8, 17}, s \in {1, 2, 5, 8}, b \in {0, 2, 3} : n >= b /\ Do(<<"to", n, s, b>>)
MWord == act[1] = "start" /\ \E t \in {"u8", "u16", "u32", "u64"}, b \in {"int", "u32", "u64"} :
           \E v \in SUBSET {x \in MBits : x < Wide(t)}, m \in SUBSET {x \in MBits : x < Wide(b)} :
              Cardinality(m) < 3 /\ Cardinality(v) # 2 /\ Do(<<"bits", t, b, Sorted(v), Sorted(m)>>)
Next == MNum \/ MAbs \/ MClamp \/ MArray \/ MMember \/ MIndent \/ MPad \/ MTo \/ MWord
Spec == Init /\ [][Next]_vars
GView == 0
Emit == PrintT("@T" \o ToJson([f |-> "0", a |-> act', t |-> "0", i |-> TRUE]))
MValsSmall == {-7, -1, 0, 1, 5}
MBitsSmall == {0, 5, 7, 15, 30, 31, 40, 63}
\* ------------------------------------------------------------------ what users rely on
Laws == CASE act[1] = "clamp" -> out >= act[4] /\ out <= act[4] + act[5] /\ (act[2] - act[3] \in act[4]..(act[4] + act[5]) => out = act[2] - act[3])
          [] act[1] = "ceiling" -> out <= act[4] [] act[1] = "floor" -> out >= act[4]
          [] act[1] = "bits" -> /\ Set(out[2]) \subseteq Set(out[1]) /\ out[3] + out[4] = 1 /\ Set(out[2]) \cap Set(act[5]) = {} /\ {x \in Set(act[5]) : x < Wide(act[2])} \subseteq Set(out[1])
          [] OTHER -> TRUE
=============================================================================
