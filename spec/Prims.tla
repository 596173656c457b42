-------------------------------- MODULE Prims --------------------------------
(* The indirection of zt_threads: every primitive goes, with its arguments, to the callback set last, and what that returned
   comes back; without one nothing happens.  The callbacks of thread pools are set one by one: those not given stay.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MTabs, MVals, MItems
VARIABLES lk, cd, ct,   \* the table in use for locks, conditions and threads: 0 none
          opt,          \* which of the thread callbacks that may be missing are there
          pc,           \* the callbacks of pools: 0 none, -1 the library's own
          act, out
vars == <<lk, cd, ct, opt, pc, act, out>>
LockFns == {"alloc", "free", "lock", "unlock"}
CondFns == {"calloc", "cfree", "signal", "wait"}
MustFns == {"start", "end"}
OptFns == {"kill", "id", "join", "detach"}
PoolFns == {"iloop", "oloop", "init", "iw", "ow", "fin"}
Nil == <<0, <<>>>>
Void == {"free", "cfree", "end"}
Default(f) == IF f \in {"iloop", "oloop"} THEN -1 ELSE 0
SetLock(x, missing) == /\ act' = <<"setlock", x, missing>> /\ UNCHANGED <<cd, ct, opt, pc>>
                       /\ IF x # 0 /\ missing \cap LockFns # {} THEN out' = <<-1, <<>>>> /\ lk' = lk ELSE out' = Nil /\ lk' = x
SetCond(x, missing) == /\ act' = <<"setcond", x, missing>> /\ UNCHANGED <<lk, ct, opt, pc>>
                       /\ IF x # 0 /\ missing \cap CondFns # {} THEN out' = <<-1, <<>>>> /\ cd' = cd ELSE out' = Nil /\ cd' = x
SetCntrl(x, missing) == /\ act' = <<"setcntrl", x, missing>> /\ UNCHANGED <<lk, cd, pc>>
                        /\ IF x # 0 /\ missing \cap MustFns # {} THEN out' = <<-1, <<>>>> /\ ct' = ct /\ opt' = opt
                           ELSE out' = Nil /\ ct' = x /\ opt' = (IF x = 0 THEN {} ELSE OptFns \ missing)
Table(f) == IF f \in LockFns THEN lk ELSE IF f \in CondFns THEN cd ELSE IF f \in OptFns /\ f \notin opt THEN 0 ELSE ct
\* v: what the callback returns; out: what the call returns, and what was called with what
Call(f, args, v) == /\ act' = <<"call", f, args, v>> /\ UNCHANGED <<lk, cd, ct, opt, pc>>
                    /\ out' = IF Table(f) # 0 THEN <<IF f \in Void THEN 0 ELSE v, <<Table(f), f, args>>>>
                              ELSE <<IF f = "detach" THEN -1 ELSE 0, <<>>>>
\* cbs: function -> table, 0 leaves it alone; the empty function means no callbacks at all
SetPool(cbs) == /\ act' = <<"setpool", cbs>> /\ out' = Nil /\ UNCHANGED <<lk, cd, ct, opt>>
                /\ pc' = IF cbs = <<>> THEN [f \in PoolFns |-> Default(f)] ELSE [f \in PoolFns |-> IF f \in DOMAIN cbs THEN cbs[f] ELSE pc[f]]
Disable(f) == f \in {"iloop", "oloop"} /\ act' = <<"disable", f>> /\ out' = Nil /\ pc' = [pc EXCEPT ![f] = 0] /\ UNCHANGED <<lk, cd, ct, opt>>
\* a pool is made, given items, started and killed: what is called with what, and what is left of the output
Data(x) == IF x = 0 THEN 0 ELSE 10 + x
IRes(x, i) == IF i % 3 = 0 THEN 0 ELSE i + 100 * x
ORes(x, i) == IF i % 2 = 0 THEN 0 ELSE i + 1000 * x
Sel(s, P(_)) == SelectSeq(s, P)
InitCall == IF pc["init"] = 0 THEN <<>> ELSE <<<<"init", pc["init"], 0, 0>>>>
ICalls(items) == CASE pc["iloop"] = 0 -> <<>>
                   [] pc["iloop"] > 0 -> <<<<"iloop", pc["iloop"], 0, 0>>>>
                   [] OTHER -> InitCall \o (IF pc["iw"] = 0 THEN <<>> ELSE [k \in 1..Len(items) |-> <<"iw", pc["iw"], Data(pc["init"]), items[k]>>])
Results(items) == IF pc["iloop"] # -1 \/ pc["iw"] = 0 THEN <<>>
                  ELSE Sel([k \in 1..Len(items) |-> IRes(pc["iw"], items[k])], LAMBDA i : i # 0)
RECURSIVE OEach(_)
OEach(q) == IF q = <<>> \/ pc["ow"] = 0 THEN <<>>
            ELSE <<<<"ow", pc["ow"], Data(pc["init"]), q[1]>>>>
                 \o (IF pc["fin"] = 0 \/ ORes(pc["ow"], q[1]) = 0 THEN <<>> ELSE <<<<"fin", pc["fin"], Data(pc["init"]), ORes(pc["ow"], q[1])>>>>)
                 \o OEach(Tail(q))
OCalls(q) == CASE pc["oloop"] = 0 -> <<>>
               [] pc["oloop"] > 0 -> <<<<"oloop", pc["oloop"], 0, 0>>>>
               [] OTHER -> InitCall \o OEach(q)
Left(q) == IF pc["oloop"] = -1 THEN <<>> ELSE q
Pool(items) == /\ act' = <<"pool", items>> /\ UNCHANGED <<lk, cd, ct, opt, pc>>
               /\ LET q == Results(items) IN out' = <<0, <<ICalls(items) \o OCalls(q), Left(q)>>>>
Init == lk = 0 /\ cd = 0 /\ ct = 0 /\ opt = {} /\ pc = [f \in PoolFns |-> Default(f)] /\ act = <<"start">> /\ out = Nil
\* ------------------------------------------------------------------ model
Args(f) == CASE f \in {"alloc", "calloc", "cfree", "kill", "detach", "end"} -> 1 [] f = "id" -> 0 [] f \in {"wait"} -> 3 [] f = "start" -> 4 [] OTHER -> 2
Next == \/ \E x \in MTabs, m \in {{}} \cup {{f} : f \in LockFns} : SetLock(x, m)
        \/ \E x \in MTabs, m \in {{}} \cup {{f} : f \in CondFns} : SetCond(x, m)
        \/ \E x \in MTabs, m \in {{}, OptFns} \cup {{f} : f \in MustFns \cup OptFns} : SetCntrl(x, m)
        \/ \E f \in LockFns \cup CondFns \cup MustFns \cup OptFns, v \in MVals : Call(f, [k \in 1..Args(f) |-> k], v)
PNext == \/ SetPool(<<>>)
         \/ \E x \in MTabs, fs \in {{f} : f \in PoolFns} \cup {PoolFns, PoolFns \ {"iloop", "oloop"}} : x # 0 /\ SetPool([f \in fs |-> x])
         \/ \E f \in {"iloop", "oloop"} : Disable(f)
         \/ \E i \in MItems : Pool(i)
Spec == Init /\ [][Next \/ PNext]_vars
GSpec == Init /\ [][Next]_vars
PSpec == Init /\ [][PNext]_vars
View == <<lk, cd, ct, opt, pc>>
\* a callback is called only from the table set last, and every missing one leaves the call without effect
Whole == [][act'[1] = "call" /\ out'[2] # <<>> => out'[2][1] \in {lk, cd, ct} /\ out'[2][3] = act'[3]]_vars
Refused == [][out'[1] = -1 /\ act'[1] # "call" => UNCHANGED View]_vars
Ever == [][act'[1] = "pool" => \A k \in 1..Len(out'[2][1]) : LET x == out'[2][1][k] IN x[2] # 0 /\ pc[x[1]] = x[2]]_vars
MItemsSmall == {<<>>, <<1, 2, 3, 4>>}
Emit == PrintT("@T" \o ToJson([f |-> ToString(<<lk, cd, ct, opt, pc>>), a |-> act', t |-> ToString(<<lk', cd', ct', opt', pc'>>), i |-> act[1] = "start"]))
==============================================================================
