------------------------------- MODULE ParLoop -------------------------------
(* Loops whose iterations are shared out among workers.  A loop is orderly if whatever one worker writes plainly no
   other touches, and whatever several workers update atomically nobody touches plainly.  A use says of some memory how
   many workers read it (r), wrote it (w), did either (u), updated it atomically or under a lock (a), did anything (ua). *)
EXTENDS Naturals, Sequences, FiniteSets
Orderly(x) == IF x.a = 0 THEN x.w = 0 \/ x.u = 1 ELSE x.u = 0 \/ x.ua = 1
==============================================================================
