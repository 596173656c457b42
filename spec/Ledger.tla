------------------------------- MODULE Ledger -------------------------------
(* Who holds what: every object of the library holds memory blocks and open files of its own.  Making an object and
   using it may change only what that object holds, looking at it changes nothing, a call that only computes holds
   nothing once its result is given back, a refused making holds nothing, and releasing an object gives back all.
   Slot 0 is the caller: what the caller keeps for itself is never touched.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N,          \* slots for objects
          Sizes,      \* what a use may leave an object holding (model only)
          MaxHist, Kinds, CallNames
VARIABLES obj,        \* obj[i]: the kind of the object in slot i, or "-"
          hist,       \* what was done with it (bounded; only to tell states apart)
          led,        \* led[i] = [blocks, files] held by slot i
          act
vars == <<obj, hist, led, act>>
Slots == 1..N
Nothing == <<0, 0>>
K == [table  |-> [make |-> {"name", "anon", "hint"}, bad |-> {"nofunc"},
                  use  |-> {"set", "del", "replace", "copy"}, look |-> {"get", "miss", "each"}],
      set    |-> [make |-> {"plain", "owning"}, bad |-> {}, use |-> {"insert", "again", "remove", "union", "inter", "diff"}, look |-> {"has", "subset", "equal", "each"}],
      buf    |-> [make |-> {"new"}, bad |-> {}, use |-> {"add", "addbuf", "expand", "reserve", "iov", "drain", "remove"}, look |-> {"get"}],
      array  |-> [make |-> {"new", "empty", "with", "given", "cstr"}, bad |-> {}, use |-> {"resize", "data", "give", "put", "setlen"}, look |-> {"get"}],
      ptrs   |-> [make |-> {"plain", "owning", "freeing"}, bad |-> {}, use |-> {"add", "resize", "del", "cat", "move", "copy"}, look |-> {"get"}],
      bstream |-> [make |-> {"new"}, bad |-> {}, use |-> {"write", "data", "trunc"}, look |-> {"read", "rewind", "empty", "clone"}],
      cfg    |-> [make |-> {"good", "again", "refs", "empty"}, bad |-> {"missing", "syntax", "late", "longname", "longline"},
                  use  |-> {"int", "float", "text", "retext", "ref", "flag", "badflag", "badtype"}, look |-> {"get", "miss", "wrongtype"}],
      log    |-> [make |-> {"file", "stderr", "syslog"}, bad |-> {"nofile"}, use |-> {"print", "error", "long", "debug"}, look |-> {"level"}],
      pool   |-> [make |-> {"plain", "never", "tested"}, bad |-> {}, use |-> {"alloc", "many", "give", "giveall", "trim"}, look |-> {"stats", "destroyfull"}],
      group  |-> [make |-> {"one", "three", "short"}, bad |-> {}, use |-> {"alloc", "give"}, look |-> {}],
      heap   |-> [make |-> {"named", "unnamed"}, bad |-> {}, use |-> {}, look |-> {"data"}],
      ez     |-> [make |-> {"root", "child"}, bad |-> {}, use |-> {"alloc", "own", "strdup", "sub", "subgone"}, look |-> {"nothing"}],
      ipv4   |-> [make |-> {"small", "default"}, bad |-> {}, use |-> {"add", "any", "bad", "dup", "search"}, look |-> {"research"}],
      list   |-> [make |-> {"one"}, bad |-> {}, use |-> {"push", "pop", "reverse", "split"}, look |-> {"nth", "nreverse"}],
      unit   |-> [make |-> {"new"}, bad |-> {}, use |-> {"suite", "test", "failing", "run", "drop"}, look |-> {"rerun", "byname", "noname", "list"}],
      lock   |-> [make |-> {"mutex", "cond"}, bad |-> {}, use |-> {}, look |-> {"use"}]]
\* what holds no more the second time (and the fortieth) than the first
Again == [research |-> "search", rerun |-> "run"]
Init == obj = [i \in Slots |-> "-"] /\ hist = [i \in Slots |-> <<>>] /\ led = [i \in 0..N |-> Nothing] /\ act = <<"init">>
Note(i, w) == hist' = [hist EXCEPT ![i] = Append(@, w)]
\* one action each; what a slot holds afterwards is h
Make(i, k, m, h) == /\ obj[i] = "-" /\ m \in K[k].make /\ act' = <<"make", i, k, m>>
                    /\ obj' = [obj EXCEPT ![i] = k] /\ hist' = [hist EXCEPT ![i] = <<m>>] /\ led' = [led EXCEPT ![i] = h]
Refuse(i, k, m) == obj[i] = "-" /\ m \in K[k].bad /\ act' = <<"make", i, k, m>> /\ UNCHANGED <<obj, hist, led>>
Use(i, k, u, h) == /\ obj[i] = k /\ u \in K[k].use /\ act' = <<"use", i, k, u>>
                   /\ Note(i, u) /\ led' = [led EXCEPT ![i] = h] /\ UNCHANGED obj
UseSome(i, k, u, h) == Len(hist[i]) < MaxHist /\ Use(i, k, u, h)
Look(i, k, u) == /\ obj[i] = k /\ u \in K[k].look /\ (u \in DOMAIN Again => hist[i] # <<>> /\ hist[i][Len(hist[i])] = Again[u])
                 /\ act' = <<"use", i, k, u>> /\ UNCHANGED <<obj, hist, led>>
Call(n) == n \in CallNames /\ act' = <<"call", 0, "call", n>> /\ UNCHANGED <<obj, hist, led>>
Drop(i, k) == /\ obj[i] = k /\ act' = <<"drop", i, k, "">>
              /\ obj' = [obj EXCEPT ![i] = "-"] /\ hist' = [hist EXCEPT ![i] = <<>>] /\ led' = [led EXCEPT ![i] = Nothing]
Next == \/ \E i \in Slots, k \in Kinds :
             \/ \E m \in K[k].make, h \in Sizes : Make(i, k, m, h)
             \/ \E m \in K[k].bad : Refuse(i, k, m)
             \/ \E u \in K[k].use, h \in Sizes : UseSome(i, k, u, h)
             \/ \E u \in K[k].look : Look(i, k, u)
             \/ Drop(i, k)
        \/ \E n \in CallNames : Call(n)
Spec == Init /\ [][Next]_vars
View == <<obj, hist, led>>
NoneHeld == \A i \in Slots : obj[i] = "-" => led[i] = Nothing
CallersOwn == led[0] = Nothing
OnlyIts == [][\A i \in 0..N : i # act'[2] => led'[i] = led[i]]_vars
GivesBack == [][act'[1] = "drop" => led'[act'[2]] = Nothing]_vars
Total(l) == LET RECURSIVE T(_) T(i) == IF i < 0 THEN 0 ELSE l[i][1] + T(i - 1) IN T(N)
AllGone == (\A i \in Slots : obj[i] = "-") => Total(led) = 0
Emit == PrintT("@T" \o ToJson([f |-> ToString(View), a |-> act', t |-> ToString(View'), i |-> TLCGet("level") = 1]))
=============================================================================
