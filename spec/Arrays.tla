------------------------------- MODULE Arrays -------------------------------
(* One- and two-dimensional arrays behind handles, and arrays of the array class. Values are in quarters.
   A handle is Nil (the empty sequence: no array is empty) or holds a value: a sequence (1D) or a sequence of rows (2D, class).
   mem counts the blocks of memory in use: one for a 1D array, two (values and row pointers) for the others. *)
EXTENDS Integers, Sequences, FiniteSets
Nil == <<>>
\* a value given as quarters in the element type
Trunc4(q) == IF q >= 0 THEN 4 * (q \div 4) ELSE -(4 * ((-q) \div 4))
As(ty, q) == IF ty \in {"i", "s"} THEN Trunc4(q) ELSE q
Conv(from, ty, q) == As(ty, As(from, q))
Fill(ty, n, q) == [i \in 1..n |-> As(ty, q)]
Fill2(ty, r, c, q) == [i \in 1..r |-> Fill(ty, c, q)]
MapSeq(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
\* ragged: the first element is the number of rows, then each row starts with its length, which is its first element
RECURSIVE RagRows(_, _)
RagRows(s, n) == IF n = 0 THEN <<>> ELSE LET c == s[1] \div 4 IN <<SubSeq(s, 1, c + 1)>> \o RagRows(SubSeq(s, c + 2, Len(s)), n - 1)
RagCols(rows) == CHOOSE m \in {Len(rows[i]) - 1: i \in 1..Len(rows)}: \A i \in 1..Len(rows): Len(rows[i]) - 1 <= m
Blocks(h, per) == per * Cardinality({x \in DOMAIN h: h[x] # Nil})
\* lists
In(v, s) == \E i \in 1..Len(s): s[i] = v
Removed(v, s) == SelectSeq(s, LAMBDA x: x # v)
=============================================================================
