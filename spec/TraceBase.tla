------------------------------ MODULE TraceBase ------------------------------
(* Reading a recorded trace: one event per step, accepted iff every event was a step. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Chk(name, expected, got) ==
  IF expected = got THEN TRUE ELSE PrintT(<<"EXPECT", name, expected>>) /\ FALSE
Ok(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"EXPECT", name>>) /\ FALSE
TraceAccepted ==
  LET d == TLCGet("stats").diameter
  IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d>>) /\ FALSE
==============================================================================
