------------------------------ MODULE ParTrace ------------------------------
(* The parallel loops behind the recorded calls, whatever those are: each is orderly. *)
EXTENDS TraceBase, ParLoop
vars == <<l>>
AnyOp == /\ Is(E.op) /\ \A i \in 1..Len(E.par.use): Ok(<<"orderly", E.par.use[i]>>, Orderly(E.par.use[i]))
Spec == l = 1 /\ [][AnyOp]_vars
=============================================================================
