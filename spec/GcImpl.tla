------------------------------- MODULE GcImpl -------------------------------
(* The collector's own state: a treadmill of three lists and a place in the grey one where a partial
   scan resumes.  TLC shows that what it releases is always what Gc allows.                           *)
EXTENDS Gc
CONSTANTS Marks, Allocs, MaxRefs, MaxOff
VARIABLES b, g, w,  \* black, grey, white lists
          scan,     \* next object to scan, 0: no scan under way
          bit, one, \* colour bits; white is "bit set" when one
          allocs
impl == <<b, g, w, scan, bit, one, allocs>>
vars == <<gcvars, impl>>
Rng(s) == {s[i] : i \in 1..Len(s)}
Del(s, x) == SelectSeq(s, LAMBDA y : y # x)
After(s, x) == LET i == CHOOSE i \in 1..Len(s) : s[i] = x IN IF i = Len(s) THEN 0 ELSE s[i + 1]
Cur == [b |-> b, g |-> g, w |-> w, scan |-> scan, bit |-> bit, one |-> one, al |-> allocs, rel |-> {}]
White(s, x) == s.bit[x] = s.one
Clear(s, x) == [s EXCEPT !.bit[x] = ~s.one]
Skip(s, x) == IF s.scan = x THEN [s EXCEPT !.scan = After(s.g, x)] ELSE s
Out(s, x) == [s EXCEPT !.b = Del(@, x), !.g = Del(@, x), !.w = Del(@, x)]
ToGrey(s, x) == LET t == Out(Skip(Clear(s, x), x), x) IN [t EXCEPT !.g = Append(@, x)]
MarkIt(s, x, P) == IF x \notin P /\ White(s, x) THEN ToGrey(s, x) ELSE s
RECURSIVE MarkAll(_, _, _)
MarkAll(s, S, P) == IF S = {} THEN s ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y
                                          IN MarkAll(MarkIt(s, x, P), S \ {x}, P)
Switch(s) == [s EXCEPT !.rel = Rng(s.w), !.w = s.b, !.b = <<>>, !.one = ~@]
RECURSIVE Loop(_, _, _, _, _)
Loop(s, full, n, P, f) ==
    IF s.scan = 0 THEN Switch(s)
    ELSE LET x == s.scan
             s1 == MarkAll(Clear(s, x), f[x], P)
             nx == After(s1.g, x)
             s2 == IF x \in P THEN s1 ELSE [Out(s1, x) EXCEPT !.b = <<x>> \o @]
             s3 == [s2 EXCEPT !.scan = nx]
         IN IF ~full /\ n + 1 >= Marks /\ nx # 0 THEN s3 ELSE Loop(s3, full, n + 1, P, f)
Run(s, full, o, P, f) ==
    IF o # 0 \/ (~full /\ s.al < Allocs) THEN s
    ELSE Loop([s EXCEPT !.al = 0, !.scan = IF @ = 0 THEN (IF s.g = <<>> THEN 0 ELSE s.g[1]) ELSE @], full, 0, P, f)
Is(s) == b' = s.b /\ g' = s.g /\ w' = s.w /\ scan' = s.scan /\ one' = s.one /\ allocs' = s.al
         /\ bit' = [x \in Obj |-> IF x \in live' THEN s.bit[x] ELSE FALSE]
Bump(s) == [s EXCEPT !.al = @ + 1]

IProtect(x) == Protect(x) /\ Is(ToGrey(Cur, x))
IUnprotect(x) == Unprotect(x) /\ Is(Cur)
IRegister(x) == LET s0 == Bump([Clear(Cur, x) EXCEPT !.g = Append(@, x)])
                    s == IF s0.al >= Allocs THEN Run(s0, FALSE, off, prot, ref) ELSE s0
                IN x \notin live /\ Register(x, s.rel) /\ Is(s)
IUnregister(x) == LET s0 == Bump(Out(Skip(Cur, x), x))
                      s == IF s0.al < Allocs THEN Run(s0, FALSE, off, prot, ref) ELSE s0
                  IN x \in live /\ Unregister(x, s.rel) /\ Is(s)
ILink(x, y) == Cardinality(ref[x]) < MaxRefs /\ Link(x, y) /\ Is(MarkIt(Cur, y, prot))
IUnlink(x, y) == Unlink(x, y) /\ Is(Cur)
IMark(x) == Mark(x) /\ Is(MarkIt(Cur, x, prot))
ICollect(full) == LET s == Run(Cur, full, off, prot, ref) IN Collect(full, s.rel) /\ Is(s)
IDisable == off < MaxOff /\ Disable /\ Is(Cur)
IEnable == LET s == IF allocs >= Allocs THEN Run(Cur, FALSE, off - 1, prot, ref) ELSE Cur
           IN off > 0 /\ Enable(s.rel) /\ Is(s)
Init == GcInit /\ b = <<>> /\ g = <<>> /\ w = <<>> /\ scan = 0 /\ bit = [x \in Obj |-> FALSE] /\ one = TRUE /\ allocs = 0
Next == \/ \E x \in Obj : IProtect(x) \/ IUnprotect(x) \/ IRegister(x) \/ IUnregister(x) \/ IMark(x)
        \/ \E x, y \in Obj : ILink(x, y) \/ IUnlink(x, y)
        \/ \E full \in BOOLEAN : ICollect(full)
        \/ IDisable \/ IEnable
Spec == Init /\ [][Next]_vars
Bound == allocs <= Allocs + 1
View == <<live, prot, ref, off, fresh, age, b, g, w, scan, bit, one, allocs>>
\* ---- properties ----
Right == ok
Listed == /\ Rng(b) \cup Rng(g) \cup Rng(w) = live
          /\ Len(b) + Len(g) + Len(w) = Cardinality(live)
Resumes == scan = 0 \/ scan \in Rng(g)
ProtectedGrey == prot \subseteq Rng(g)
\* no object already dealt with in this scan refers to a white one (but for references out of garbage)
NoBlackToWhite == \A x \in Rng(b) : \A y \in ref[x] : ~(y \in Rng(w) /\ bit[y] = one) \/ x \notin Reach(prot, ref)
\* collections start by themselves
NotOverdue == off = 0 /\ act[1] \in {"register", "enable"} => allocs < Allocs
\* partial collections alone come to the end of every garbage
RECURSIVE Partials(_, _)
Partials(s, k) == IF k = 0 THEN s ELSE Partials(Run([s EXCEPT !.al = Allocs], FALSE, 0, prot, ref), k - 1)
PartialsEnd == LET s == Partials(Cur, 3 * (Cardinality(live) + 1))
               IN Rng(s.b) \cup Rng(s.g) \cup Rng(s.w) = Reach(prot, ref)
Symm == Permutations(Obj)
Emit == PrintT("@T" \o ToJson([f |-> ToString(View), a |-> act', t |-> ToString(View'), i |-> TLCGet("level") = 1]))
=============================================================================
