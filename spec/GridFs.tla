------------------------------- MODULE GridFs -------------------------------
(* The file store.  A store is a set of files [st, id, name, meta, data]: st the database and store a file lies in,
   meta a sequence of <<key, value>>.  Several files may have one name.  The operations are relations between the
   store before, the store after, what was returned, and the failures of the server met on the way. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
\* a file answers to a name and a selection of metadata
HasPair(f, kv) == \E i \in 1..Len(f.meta): f.meta[i] = kv /\ \A j \in 1..(i - 1): f.meta[j][1] # kv[1]
Matching(fs, st, name, opts) == {f \in fs: f.st = st /\ f.name = name /\ \A i \in 1..Len(opts): HasPair(f, opts[i])}
Attempts == 5      \* a look-up is tried so often
Retries == 3       \* a write is tried again so often
\* files of `old` not in S are as they were; of those in S some may be gone
Untouched(old, new, S) == (old \ S) \subseteq new
Added(old, new) == new \ old
Complete(f, st, name, meta, data) == f.st = st /\ f.name = name /\ f.meta = meta /\ f.data = data
\* ---- reading: x = [ok, data], failures met while looking and while reading
Found(fs, st, name, opts, ok, find) ==
  LET M == Matching(fs, st, name, opts)
  IN IF M = {} THEN ~ok ELSE ok \/ find >= Attempts
GetData(fs, st, name, opts, ok, data, find, read) ==
  LET M == Matching(fs, st, name, opts)
  IN IF ok THEN \E f \in M: f.data = data ELSE M = {} \/ find >= Attempts \/ read >= 1
GetMeta(fs, st, name, opts, ok, meta, find) ==
  LET M == Matching(fs, st, name, opts)
  IN IF ok THEN \E f \in M: f.meta = meta ELSE M = {} \/ find >= Attempts \/ \E f \in M: f.meta = <<>>
\* ---- removing
Removed(old, new, st, name, opts, ok, find, remove) ==
  LET M == Matching(old, st, name, opts)
  IN /\ Added(old, new) = {} /\ Untouched(old, new, M)
     /\ IF ok THEN new \cap M = {} ELSE find + remove > 0
\* ---- one attempt to store a file
Put(old, new, st, name, meta, data, ok, write, save, remove) ==
  LET A == Added(old, new)
  IN /\ Untouched(old, new, {})
     /\ \A f \in A: Complete(f, st, name, meta, data)
     /\ IF ok THEN Cardinality(A) = 1 ELSE write + save > 0 /\ (A = {} \/ remove > 0)
\* ---- storing an array: what was there under the name and the selection is replaced
Replace(old, new, st, name, opts, meta, data, ok, find, write, save, remove) ==
  LET M == Matching(old, st, name, opts)
      A == Added(old, new)
      S == {f \in A: f.st = st /\ f.name = name /\ f.data = data /\ ToSet(f.meta) = ToSet(meta)}
  IN /\ Untouched(old, new, M) /\ A = S
     /\ IF ok THEN new \cap M = {} /\ (Cardinality(A) = 1 \/ (A # {} /\ remove > 0))
        ELSE /\ A = {} \/ remove > 0
             /\ write + save > Retries \/ find + remove > 0
\* ---- listings
Ends(c, x) == Len(c) > Len(x) /\ SubSeq(c, Len(c) - Len(x) + 1, Len(c)) = x
Front1(c, x) == SubSeq(c, 1, Len(c) - Len(x))
\* the file stores of a database: those with both of their collections
Stores(cs) == {Front1(c, ".files"): c \in {d \in cs: Ends(d, ".files")}} \cap {Front1(c, ".chunks"): c \in {d \in cs: Ends(d, ".chunks")}}
=============================================================================
