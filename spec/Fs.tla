--------------------------------- MODULE Fs ---------------------------------
(* A tree of directories, files and links, the way paths name its nodes, and the operations on it.
   A node path is the sequence of names below the root; names and path texts are sequences of byte codes.
   A tree t is a function from node paths to nodes [k, m, c]: k is 0 for a directory, 1 for a file, 2 for a link;
   m is the mode: 7 all, 5 no writing, 0 nothing; c is the content of a file or the target text of a link.
   The root <<>> is not in t: it is a directory that cannot be removed. *)
EXTENDS Text
SEP == 47  STAR == 42  HASH == 35
DirK == 0  FileK == 1  LinkK == 2
None == <<<<0>>>>
RootText == <<SEP, 82>>                     \* "/R"
Up == <<DOT, DOT>>  Here == <<DOT>>
Has(t, p) == p = <<>> \/ p \in DOMAIN t
IsDir(t, p) == p = <<>> \/ (p \in DOMAIN t /\ t[p].k = DirK)
Mode(t, p) == IF p = <<>> THEN 7 ELSE t[p].m
Open(t, p) == IsDir(t, p) /\ Mode(t, p) # 0        \* may be listed and entered
Wr(t, p) == IsDir(t, p) /\ Mode(t, p) = 7          \* entries may be added and removed
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Name(p) == p[Len(p)]
Below(p, q) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p
Kids(t, p) == {q \in DOMAIN t: Len(q) = Len(p) + 1 /\ Below(p, q)}
WellFormed(t) == \A p \in DOMAIN t: p # <<>> /\ IsDir(t, Parent(p))
Without(t, S) == [p \in DOMAIN t \ S |-> t[p]]
With(t, p, n) == [q \in DOMAIN t \cup {p} |-> IF q = p THEN n ELSE t[q]]
\* ------------------------------------------------------------- what a text names
Comps(s) == Cut(s, {SEP}, <<>>)
StartsRoot(s) == Len(s) >= 2 /\ SubSeq(s, 1, 2) = RootText /\ (Len(s) = 2 \/ s[3] = SEP)
RECURSIVE Walk(_, _, _, _)
Walk(t, cur, cs, fuel) ==
  IF cur = None \/ fuel = 0 THEN None ELSE IF cs = <<>> THEN cur
  ELSE IF ~IsDir(t, cur) THEN None
  ELSE IF cs[1] = <<>> THEN Walk(t, cur, Tail(cs), fuel)
  ELSE IF Mode(t, cur) = 0 THEN None
  ELSE IF cs[1] = Here THEN Walk(t, cur, Tail(cs), fuel)
  ELSE IF cs[1] = Up THEN Walk(t, IF cur = <<>> THEN None ELSE Parent(cur), Tail(cs), fuel)
  ELSE LET n == Append(cur, cs[1])
       IN IF ~Has(t, n) THEN None
          ELSE IF t[n].k # LinkK THEN Walk(t, n, Tail(cs), fuel)
          ELSE LET g == t[n].c IN IF StartsRoot(g) THEN Walk(t, <<>>, Comps(SubSeq(g, 3, Len(g))) \o Tail(cs), fuel - 1)
                                  ELSE IF g = <<>> \/ g[1] = SEP THEN None ELSE Walk(t, cur, Comps(g) \o Tail(cs), fuel - 1)
At(t, cs) == Walk(t, <<>>, cs, 12)
Rel(s) == IF StartsRoot(s) THEN SubSeq(s, 3, Len(s)) ELSE s
Find(t, s) == IF s = <<>> \/ (s[1] = SEP /\ ~StartsRoot(s)) THEN None ELSE At(t, Comps(Rel(s)))
RECURSIVE TextOf(_)
TextOf(p) == IF p = <<>> THEN RootText ELSE TextOf(Parent(p)) \o <<SEP>> \o Name(p)
\* (outside the root only "/" is known)
Abs(t, s) == LET p == Find(t, s) IN IF p # None THEN TextOf(p) ELSE IF s # <<>> /\ \A i \in 1..Len(s): s[i] = SEP THEN <<SEP>> ELSE s
\* ------------------------------------------------------------- file names
LastOf(s, c) == IF \E i \in 1..Len(s): s[i] = c THEN CHOOSE i \in 1..Len(s): s[i] = c /\ \A j \in (i + 1)..Len(s): s[j] # c ELSE 0
DirPart(s) == SubSeq(s, 1, LastOf(s, SEP))
BasePart(s) == SubSeq(s, LastOf(s, SEP) + 1, Len(s))
Suf(s) == LET b == BasePart(s) k == LastOf(b, DOT) IN IF k = 0 THEN <<>> ELSE SubSeq(b, k + 1, Len(b))
Core(s) == LET b == BasePart(s) k == LastOf(b, DOT) IN IF k = 0 THEN b ELSE SubSeq(b, 1, k - 1)
DirOf(t, s) == LET p == Find(t, s) IN IF p # None /\ IsDir(t, p) THEN TextOf(p) ELSE DirPart(Abs(t, s))
Concat(t, d, core, suf) ==
  LET a == Abs(t, d) IN a \o (IF a # <<>> /\ a[Len(a)] # SEP THEN <<SEP>> ELSE <<>>) \o core \o (IF suf = <<>> THEN <<>> ELSE <<DOT>> \o suf)
NewSuf(t, s, suf) == LET a == Abs(t, s) IN IF DirPart(a) = <<>> \/ Suf(a) = <<>> THEN <<>> ELSE DirPart(a) \o Core(a) \o <<DOT>> \o suf
Add(t, s, pre, post) == LET a == Abs(t, s) IN Concat(t, DirPart(a), pre \o Core(a) \o post, Suf(a))
\* ------------------------------------------------------------- queries
Exists(t, s) == Find(t, s) # None
DirThere(t, s) == Find(t, s) # None /\ IsDir(t, Find(t, s))
Visible(t, p) == {q \in Kids(t, p): Name(q)[1] # DOT}
Wanted(x) == SubSeq(x, LastOf(x, DOT) + 1, Len(x))
AnySuffix(x) == x = <<STAR, DOT, STAR>> \/ x = <<DOT, STAR>>
SufOfName(n) == LET k == LastOf(n, DOT) IN IF k = 0 THEN <<>> ELSE SubSeq(n, k + 1, Len(n))
Fits(n, x) == AnySuffix(x) \/ (SufOfName(n) # <<>> /\ Match(SufOfName(n), Wanted(x)))
Files(t, s, x) == LET p == Find(t, s) IN IF p = None \/ ~Open(t, p) THEN {} ELSE {TextOf(q): q \in {r \in Visible(t, p): Fits(Name(r), x)}}
Lines(c) == SelectSeq([i \in 1..Len(Cut(c, {NL}, <<>>)) |-> Trim(Cut(c, {NL}, <<>>)[i])], LAMBDA w: w # <<>> /\ w[1] # HASH)
Load(t, s) == LET p == Find(t, s) IN IF p # None /\ ~IsDir(t, p) /\ t[p].m # 0 THEN [ok |-> TRUE, v |-> Lines(t[p].c)] ELSE [ok |-> FALSE, v |-> <<>>]
\* ------------------------------------------------------------- changes: [ok, t]
RECURSIVE DropSeps(_)
DropSeps(s) == IF Len(s) > 1 /\ s[Len(s)] = SEP THEN DropSeps(SubSeq(s, 1, Len(s) - 1)) ELSE s
Mkdir(t, s) ==
  IF DirThere(t, s) THEN [ok |-> TRUE, t |-> t]
  ELSE LET u == DropSeps(Rel(s))   cs == Comps(u)   par == At(t, SubSeq(cs, 1, Len(cs) - 1))   n == cs[Len(cs)]
       IN IF s = <<>> \/ (s[1] = SEP /\ ~StartsRoot(s)) \/ par = None \/ n \in {<<>>, Here, Up} \/ ~Wr(t, par) \/ Has(t, Append(par, n))
          THEN [ok |-> FALSE, t |-> t] ELSE [ok |-> TRUE, t |-> With(t, Append(par, n), [k |-> DirK, m |-> 7, c |-> <<>>])]
\* what can be removed with its parent writable: files, links, empty directories
Removable(t, q) == Wr(t, Parent(q)) /\ (t[q].k # DirK \/ Kids(t, q) = {})
Clean(t, s) ==
  IF ~DirThere(t, s) THEN Mkdir(t, s)
  ELSE LET p == Find(t, s)   v == Visible(t, p)   r == {q \in v: Removable(t, q)}
       IN IF ~Open(t, p) THEN [ok |-> FALSE, t |-> t] ELSE [ok |-> r = v, t |-> Without(t, r)]
\* a tree without what can be removed below p: contents of sub-directories first, then the entries
RECURSIVE Emptied(_, _)
Emptied(t, p) ==
  IF ~Open(t, p) THEN t
  ELSE LET subs == SetToSeq({q \in Kids(t, p): t[q].k = DirK})
           u == FoldSeq(LAMBDA q, x: Emptied(x, q), t, subs)
       IN Without(u, {q \in Kids(u, p): Removable(u, q)})
Delete(t, s) ==
  IF ~DirThere(t, s) THEN [ok |-> TRUE, t |-> t]
  ELSE LET p == Find(t, s)   u == Emptied(t, p)   gone == Open(t, p) /\ p # <<>> /\ Removable(u, p)
       IN [ok |-> gone, t |-> IF gone THEN Without(u, {p}) ELSE u]
\* without sub-directories: those with content stay as they are
DeleteFlat(t, s) ==
  IF ~DirThere(t, s) THEN [ok |-> TRUE, t |-> t]
  ELSE LET p == Find(t, s)   u == IF Open(t, p) THEN Without(t, {q \in Kids(t, p): Removable(t, q)}) ELSE t
           gone == Open(t, p) /\ p # <<>> /\ Removable(u, p)
       IN [ok |-> Open(t, p), t |-> IF gone THEN Without(u, {p}) ELSE u]
DeleteFile(t, s) ==
  LET p == Find(t, s) IN IF p = None \/ p = <<>> \/ ~Removable(t, p) THEN [ok |-> FALSE, t |-> t] ELSE [ok |-> TRUE, t |-> Without(t, {p})]
=============================================================================
