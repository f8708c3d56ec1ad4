------------------------------- MODULE MCStats ------------------------------
(* The laws of Stats over all short sequences. *)
EXTENDS Stats
CONSTANTS Values, N
VARIABLE s
Init == s = <<>>
Next == Len(s) < N /\ \E v \in Values: s' = Append(s, v)
Spec == Init /\ [][Next]_s
Range1 == Largest(s) - Smallest(s)
Ordered == s # <<>> => Smallest(s) * Len(s) <= Total(s) /\ Total(s) <= Largest(s) * Len(s)
Steady == s # <<>> => Spread(s) >= 0 /\ (Spread(s) = 0 <=> Largest(s) = Smallest(s)) /\ 4 * Spread(s) <= Len(s) * Len(s) * Range1 * Range1
Mirrored == LET m == [i \in 1..Len(s) |-> -s[i]] IN s # <<>> => Largest(m) = -Smallest(s) /\ Total(m) = -Total(s) /\ Spread(m) = Spread(s)
Turned == Total(Reverse(s)) = Total(s) /\ (s # <<>> => Largest(Reverse(s)) = Largest(s) /\ Spread(Reverse(s)) = Spread(s))
Excluding == \A x \in Values: LET i == Included(s, x) IN (\A k \in 1..Len(i): i[k] # x) /\ Total(i) + x * (Len(s) - Len(i)) = Total(s)
\* readings: exactly one hundredth is within the bounds, give or take one
Readings == s # <<>> => LET D == {d \in 0..700: DevIs(s, d)} IN D # {} /\ Largest(SetToSeq(D)) - Smallest(SetToSeq(D)) <= 2
                        /\ Cardinality({m \in -3000..3000: MeanIs(s, m)}) \in 1..3
Powers == \A a \in Values, n \in 0..4: SignPow(-a, n) = -SignPow(a, n) \/ a = 0
=============================================================================
