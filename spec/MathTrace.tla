----------------------------- MODULE MathTrace ------------------------------
(* Recorded calls of the mathematics functions are what Stats gives. *)
EXTENDS TraceBase, Stats
vars == <<l>>
Init == l = 1
Reset == Is("reset")
MaxOp == Is("max") /\ Chk("max and min", <<Largest(E.s), Smallest(E.s)>>, <<E.max, E.min>>)
SumOp == Is("sum") /\ Chk("sum", Total(E.s), E.sum)
SumIdx == Is("sumidx") /\ Chk("sum of the elements named", Total(Pick(E.s, E.idx)), E.sum)
StatOp == Is("stat") /\ LET s == Included(E.s, E.x) IN Ok("statistics", StatsAre(s, E.r)) /\ Ok("data kept", E.kept)
Stat2Op == Is("stat2") /\ Ok("statistics of every column", \A j \in 1..E.c: StatsAre(Included(Column(E.rows, j), E.x), E.r[j])) /\ Ok("data kept", E.kept)
\* near zero in units of 1e-33, elsewhere in quarters
EqOp == Is("eq") /\ LET y == IF E.tiny THEN AbsI(E.a - E.b) < 10 ELSE E.a = E.b IN Chk("equal", y, E.eq) /\ Chk("the other way round", y, E.qe)
Bound == [sqrtf |-> 300, sqrt |-> 50, expf |-> 10000, exp |-> 6000, lnf |-> 500000, ln |-> 500000, pow |-> 2500000]
\* deviation from the exact value, in parts per 10^9 (sqrt: 10^12; ln: absolute)
NearOp == Is("near") /\ Ok("close to the exact value", AbsI(E.dev) <= Bound[E.f])
ExpoOp == Is("expo") /\ Chk("argument used", Clamp(E.x, E.lo, E.up), E.got) /\ Ok("exponential", E.exact)
PowerOp == Is("power") /\ Chk("power", SignPow(E.a, E.n), E.got)
CalOp == Is("cal") /\ Chk("square root", E.k, E.sqrt) /\ Chk("power", Pow(E.k, E.n), E.pow) /\ Chk("logarithm of exponential", E.k, E.lnexp)
MacroOp == Is("macro") /\ Chk("max, min, abs", <<IF E.a >= E.b THEN E.a ELSE E.b, IF E.a >= E.b THEN E.b ELSE E.a, AbsI(E.a)>>, <<E.max, E.min, E.abs>>)
Next == Reset \/ MaxOp \/ SumOp \/ SumIdx \/ StatOp \/ Stat2Op \/ EqOp \/ NearOp \/ ExpoOp \/ PowerOp \/ CalOp \/ MacroOp
Spec == Init /\ [][Next]_vars
=============================================================================
