------------------------------- MODULE Stats --------------------------------
(* Statistics of the elements of a sequence of whole numbers that are not excluded, and closeness of decimal readings. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
AbsI(x) == IF x < 0 THEN -x ELSE x
Total(s) == FoldSeq(LAMBDA x, a: a + x, 0, s)
Squares(s) == FoldSeq(LAMBDA x, a: a + x * x, 0, s)
Largest(s) == CHOOSE m \in {s[i]: i \in 1..Len(s)}: \A i \in 1..Len(s): s[i] <= m
Smallest(s) == CHOOSE m \in {s[i]: i \in 1..Len(s)}: \A i \in 1..Len(s): s[i] >= m
Included(s, x) == SelectSeq(s, LAMBDA v: v # x)
\* m is the mean of s in thousandths, rounded; d the standard deviation in hundredths, rounded
MeanIs(s, m) == AbsI(m * Len(s) - 1000 * Total(s)) <= Len(s)
Spread(s) == Len(s) * Squares(s) - Total(s) * Total(s)      \* n^2 times the variance
DevIs(s, d) ==
  LET n == Len(s) IN
  IF n <= 8 THEN d >= 0 /\ (2 * d + 2) * (2 * d + 2) * n * n >= 40000 * Spread(s) /\ (d = 0 \/ (2 * d - 2) * (2 * d - 2) * n * n <= 40000 * Spread(s))
  ELSE LET w == ((((Spread(s) * 100) \div n) * 100) \div n) IN d >= 0 /\ AbsI(d * d - w) <= 4 * d + 204
\* <<count, mean, max, min, deviation, range>>
StatsAre(s, r) == r[1] = Len(s) /\ (s # <<>> => MeanIs(s, r[2]) /\ r[3] = Largest(s) /\ r[4] = Smallest(s) /\ DevIs(s, r[5]) /\ r[6] = Largest(s) - Smallest(s))
Column(rows, j) == [i \in 1..Len(rows) |-> rows[i][j]]
Pick(s, idx) == [i \in 1..Len(idx) |-> s[idx[i] + 1]]
Clamp(x, lo, up) == IF x < lo THEN (IF lo > up THEN up ELSE lo) ELSE IF x > up THEN up ELSE x
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
SignPow(a, n) == IF a >= 0 THEN Pow(a, n) ELSE -Pow(-a, n)
=============================================================================
