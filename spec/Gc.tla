--------------------------------- MODULE Gc ---------------------------------
(* zt_gc as its user sees it: a heap of objects that refer to each other, some protected.  A call may
   release objects; it must not release one that is reachable, nor any while collection is disabled,
   and garbage does not survive three full collections.  The mutator's part: a new object is safe
   until the next collection or registration, and a stored reference is reported with zt_gc_mark.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Obj
VARIABLES live,   \* objects the collector knows
          prot,   \* the protected ones
          ref,    \* object -> set of objects it refers to
          off,    \* how often collection has been disabled
          fresh,  \* the object registered last, while its holder may still use it unprotected; 0: none
          age,    \* full collections an unreachable object has survived
          rel,    \* what the last call released
          ok,     \* the last call's releases were right
          act
gcvars == <<live, prot, ref, off, fresh, age, rel, ok, act>>
MaxAge == 2
RECURSIVE Reach(_, _)
Reach(S, f) == LET T == S \cup UNION {f[x] : x \in S} IN IF T = S THEN S ELSE Reach(T, f)
FreshSet == IF fresh = 0 THEN {} ELSE {fresh}
Usable == Reach(prot \cup FreshSet, ref)      \* what the mutator may touch
\* the common part of every call: R is released from the heap (l1, p1, f1), in which the objects of keep are in use too
Settle(a, R, l1, p1, f1, keep, full, may) ==
    LET good == Reach(p1 \cup keep, f1)
        ag == [x \in Obj |-> IF x \in l1 \ R /\ x \notin good THEN age[x] + (IF full /\ off = 0 THEN 1 ELSE 0) ELSE 0]
    IN /\ act' = a /\ rel' = R
       /\ live' = l1 \ R /\ prot' = p1 \ R
       /\ ref' = [x \in Obj |-> IF x \in l1 \ R THEN f1[x] ELSE {}]
       /\ age' = ag
       /\ ok' = (/\ R \subseteq l1 /\ R \cap good = {}
                 /\ (R # {} => may)
                 /\ \A x \in Obj : ag[x] <= MaxAge)
Protect(x) == /\ x \notin live \/ x \in Usable
              /\ Settle(<<IF x \in live THEN "protect" ELSE "protectnew", x>>, {}, live \cup {x}, prot \cup {x}, ref, {}, FALSE, FALSE) /\ UNCHANGED <<off, fresh>>
Unprotect(x) == /\ x \in prot
                /\ Settle(<<"unprotect", x>>, {}, live, prot \ {x}, ref, {}, FALSE, FALSE) /\ UNCHANGED <<off, fresh>>
Register(x, R) == /\ x \notin live
                  /\ Settle(<<"register", x>>, R, live \cup {x}, prot, ref, {x}, FALSE, off = 0)
                  /\ fresh' = x /\ UNCHANGED off
\* taken back by its owner: nobody may refer to it any more
Unregister(x, R) == /\ x \in Usable /\ \A y \in live \ {x} : x \notin ref[y]
                    /\ Settle(<<"unregister", x>>, R, live \ {x}, prot \ {x}, [ref EXCEPT ![x] = {}],
                              IF fresh = x THEN {} ELSE FreshSet, FALSE, off = 0)
                    /\ fresh' = 0 /\ UNCHANGED off
Link(x, y) == /\ x \in Usable /\ y \in Usable /\ y \notin ref[x]
              /\ Settle(<<"link", x, y>>, {}, live, prot, [ref EXCEPT ![x] = @ \cup {y}], {}, FALSE, FALSE)
              /\ UNCHANGED <<off, fresh>>
Unlink(x, y) == /\ x \in Usable /\ y \in ref[x]
                /\ Settle(<<"unlink", x, y>>, {}, live, prot, [ref EXCEPT ![x] = @ \ {y}], {}, FALSE, FALSE)
                /\ UNCHANGED <<off, fresh>>
Mark(x) == /\ x \in Usable /\ Settle(<<"mark", x>>, {}, live, prot, ref, {}, FALSE, FALSE) /\ UNCHANGED <<off, fresh>>
Collect(full, R) == /\ Settle(<<"collect", IF full THEN 1 ELSE 0>>, R, live, prot, ref, {}, full, off = 0)
                    /\ fresh' = (IF off = 0 THEN 0 ELSE fresh) /\ UNCHANGED off
Disable == Settle(<<"disable">>, {}, live, prot, ref, {}, FALSE, FALSE) /\ off' = off + 1 /\ UNCHANGED fresh
Enable(R) == /\ off > 0 /\ Settle(<<"enable">>, R, live, prot, ref, {}, FALSE, off = 1) /\ off' = off - 1
             /\ fresh' = IF off = 1 THEN 0 ELSE fresh
\* everything is released, each object once
Destroy(R) == /\ act' = <<"destroy">> /\ rel' = R /\ ok' = (R = live) /\ live' = {} /\ prot' = {} /\ off' = 0 /\ fresh' = 0
              /\ ref' = [x \in Obj |-> {}] /\ age' = [x \in Obj |-> 0]
GcInit == /\ live = {} /\ prot = {} /\ ref = [x \in Obj |-> {}] /\ off = 0 /\ fresh = 0 /\ age = [x \in Obj |-> 0]
          /\ rel = {} /\ ok = TRUE /\ act = <<"init">>
=============================================================================
