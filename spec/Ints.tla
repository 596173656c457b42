-------------------------------- MODULE Ints --------------------------------
(* Checked integer arithmetic: the result of every operation on every type is the mathematical one when the type can hold it;
   otherwise the program is stopped.  Numbers of any size are <<negative, magnitude in bytes, little end first>>.          *)
EXTENDS Big, TLC, Json
CONSTANTS MRows, MWide
VARIABLES act, out
vars == <<act, out>>
Pow(b) == [k \in 1..((b \div 8) + 1) |-> IF k = (b \div 8) + 1 THEN 2 ^ (b % 8) ELSE 0]
Holds(s, b, z) == IF s THEN LessM(z[2], Pow(b - 1)) \/ (z[1] /\ z[2] = Norm(Pow(b - 1))) ELSE ~z[1] /\ LessM(z[2], Pow(b))
Exact(op, x, y) == CASE op = "add" -> Plus(x, y) [] op = "sub" -> Minus(x, y) [] op = "mul" -> Times(x, y) [] op = "div" -> Over(x, y)
Stop == <<"stop">>
Calc(op, s, b, x, y) == IF op = "div" /\ y[2] = <<>> THEN Stop ELSE LET z == Exact(op, x, y) IN IF Holds(s, b, z) THEN z ELSE Stop
Show(z) == IF z = Stop THEN Stop ELSE Bytes(z)
\* ------------------------------------------------------------------ small numbers, all at once
Trunc(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
Small(op, s, x, y) == LET lo == IF s THEN -128 ELSE 0
                          hi == IF s THEN 127 ELSE 255
                          z == CASE op = "add" -> x + y [] op = "sub" -> x - y [] op = "mul" -> x * y [] op = "div" -> IF y = 0 THEN 1000000 ELSE Trunc(x, y)
                      IN IF z \in lo..hi THEN z ELSE 9999
Row(op, s, x) == LET lo == IF s THEN -128 ELSE 0 IN [k \in 1..256 |-> Small(op, s, x, lo + k - 1)]
\* operation, signed, bits, operands   -- or: "row", operation, signed, left operand
Result(a) == IF a[1] = "row" THEN Row(a[2], a[3] = 1, a[4]) ELSE Show(Calc(a[1], a[2] = 1, a[3], Of(a[4]), Of(a[5])))
Do(a) == act' = a /\ out' = Result(a)
Init == act = <<"start">> /\ out = 0
\* ------------------------------------------------------------------ model
Ops == {"add", "sub", "mul", "div"}
Types == {<<s, b>> : s \in {0, 1}, b \in {8, 16, 32, 64}}
Has(op, t) == op \in {"add", "sub"} \/ t[2] < 64
\* the numbers around the ends of a type and around nothing
Edge(t) == LET top == IF t[1] = 1 THEN Pow(t[2] - 1) ELSE Pow(t[2])
               one == <<1>>
               pos == {<<>>, one, <<2>>, <<3>>, SubM(top, one), SubM(top, <<2>>), DivM(top, <<2>>), AddM(DivM(top, <<2>>), one), Norm(Pow(t[2] \div 2)), SubM(Pow(t[2] \div 2), one)}
               neg == IF t[1] = 0 THEN {} ELSE {one, <<2>>, <<3>>, Norm(top), SubM(top, one), DivM(top, <<2>>), AddM(DivM(top, <<2>>), one), Norm(Pow(t[2] \div 2))}
           IN {Bytes(<<FALSE, m>>) : m \in {m \in pos : LessM(m, top)}} \cup {Bytes(<<TRUE, m>>) : m \in neg}
Edges == act[1] = "start" /\ \E op \in Ops, t \in MWide : Has(op, t) /\ \E x, y \in Edge(t) : Do(<<op, t[1], t[2], x, y>>)
Rows == act[1] = "start" /\ \E op \in Ops, x \in MRows : Do(<<"row", op, 0, x + 128>>) \/ Do(<<"row", op, 1, x>>)
Next == Edges \/ Rows
Spec == Init /\ [][Next]_vars
GView == 0
Emit == PrintT("@T" \o ToJson([f |-> "0", a |-> act', t |-> "0", i |-> TRUE]))
MWideAll == Types
MRowsAll == -128..127
MRowsSome == {-128, -127, -3, -1, 0, 1, 2, 77, 127}
\* ------------------------------------------------------------------ what users rely on, said differently
Big(v) == IF v < 0 THEN Num(TRUE, <<-v>>) ELSE Num(FALSE, Norm(<<v>>))
Back(z) == IF z[2] = <<>> THEN 0 ELSE (IF z[1] THEN -1 ELSE 1) * z[2][1]
Laws == CASE act[1] = "row" -> \A k \in 1..256 : LET lo == IF act[3] = 1 THEN -128 ELSE 0
                                                      z == Calc(act[2], act[3] = 1, 8, Big(act[4]), Big(lo + k - 1))
                                                  IN out[k] = IF z = Stop THEN 9999 ELSE Back(z)
          [] act[1] \in Ops /\ out # Stop ->                  \* undone by the opposite operation
               LET x == Of(act[4]) y == Of(act[5]) z == Of(out) IN
               (CASE act[1] = "add" -> Minus(z, y) = x
                 [] act[1] = "sub" -> Plus(z, y) = x
                 [] act[1] = "mul" -> y[2] # <<>> => Over(z, y) = x
                 [] act[1] = "div" -> LET r == Minus(x, Times(z, y)) IN LessM(r[2], y[2]) /\ (r[2] = <<>> \/ r[1] = x[1]))
          [] OTHER -> TRUE
=============================================================================
