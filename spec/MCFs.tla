-------------------------------- MODULE MCFs --------------------------------
(* The laws of Fs over all trees of up to Size nodes: every operation from every tree, on every text of a small set. *)
EXTENDS Fs
CONSTANTS Names, Size, Depth, Mode3, Targets, Contents, Sufs
VARIABLES t, last     \* last: the operation just done: its text, result and the tree before
NoTree == [p \in {} |-> 0]
Init == t = NoTree /\ last = [op |-> "none"]
Dirs == {<<>>} \cup {p \in DOMAIN t: t[p].k = DirK}
Rels == UNION {[1..n -> Names]: n \in 1..Depth}
TextsOf == {TextOf(p): p \in Rels} \cup {TextOf(p) \o <<SEP>>: p \in Rels} \cup {SubSeq(TextOf(p), 4, Len(TextOf(p))): p \in Rels}
           \cup {TextOf(p) \o <<SEP, DOT, DOT>>: p \in Rels} \cup {RootText, <<DOT>>, <<>>, <<SEP>>}
Grow == /\ Cardinality(DOMAIN t) < Size /\ last.op \in {"none", "grow"}
        /\ \E d \in Dirs, n \in Names:
             /\ Len(d) < Depth /\ ~Has(t, Append(d, n))
             /\ \E v \in [k: {DirK}, m: Mode3, c: {<<>>}] \cup [k: {FileK}, m: {7}, c: Contents] \cup [k: {LinkK}, m: {7}, c: Targets]: t' = With(t, Append(d, n), v)
        /\ last' = [op |-> "grow"]
Do(op, s, r) == t' = r.t /\ last' = [op |-> op, s |-> s, ok |-> r.ok, b |-> t]
Act == last.op \in {"none", "grow"} /\ \E s \in TextsOf: Do("mkdir", s, Mkdir(t, s)) \/ Do("clean", s, Clean(t, s)) \/ Do("delete", s, Delete(t, s)) \/ Do("flat", s, DeleteFlat(t, s)) \/ Do("unlink", s, DeleteFile(t, s))
Next == Grow \/ Act
Spec == Init /\ [][Next]_<<t, last>>
GrowSpec == Init /\ [][Grow]_<<t, last>>
Trees == WellFormed(t)
Done(op) == last.op = op
Same(S) == \A p \in S: p \in DOMAIN t /\ t[p] = last.b[p]
\* success means the named state, for every operation
MkdirOk == Done("mkdir") => (last.ok <=> DirThere(t, last.s)) /\ Same(DOMAIN last.b) /\ Cardinality(DOMAIN t \ DOMAIN last.b) <= 1
CleanOk == Done("clean") => /\ (last.ok => LET p == IF DirThere(last.b, last.s) THEN Find(last.b, last.s) ELSE Find(t, last.s) IN p # None /\ IsDir(t, p) /\ Visible(t, p) = {})
                            /\ (DirThere(last.b, last.s) => LET p == Find(last.b, last.s) IN Same({q \in DOMAIN last.b: ~(Below(p, q) /\ Len(q) = Len(p) + 1)}) /\ DOMAIN t \subseteq DOMAIN last.b
                                                                                             /\ (~last.ok => ~Open(t, p) \/ \E q \in Visible(t, p): TRUE))
                            /\ (~DirThere(last.b, last.s) => Same(DOMAIN last.b))
DeleteOk == Done("delete") => LET p == Find(last.b, last.s)
                              IN IF ~DirThere(last.b, last.s) THEN last.ok /\ t = last.b
                                 ELSE /\ (last.ok <=> ~Has(t, p)) /\ DOMAIN t \subseteq DOMAIN last.b
                                      /\ Same({q \in DOMAIN last.b: q # p /\ ~Below(p, q)}) /\ (last.ok => \A q \in DOMAIN t: ~Below(p, q))
                                      /\ ((\A q \in DOMAIN last.b: last.b[q].m = 7) /\ p # <<>> => last.ok)
FlatOk == Done("flat") => DOMAIN t \subseteq DOMAIN last.b /\ LET p == Find(last.b, last.s) IN p # None => \A q \in DOMAIN last.b: Len(q) > Len(p) + 1 => q \in DOMAIN t
UnlinkOk == Done("unlink") => LET p == Find(last.b, last.s) IN IF last.ok THEN ~Has(t, p) /\ Same(DOMAIN last.b \ {p}) /\ DOMAIN t \subseteq DOMAIN last.b ELSE t = last.b
\* names: absolute texts name the same node and are stable; parts put together again
AbsOk == \A s \in TextsOf: Abs(t, Abs(t, s)) = Abs(t, s) /\ Find(t, Abs(t, s)) = Find(t, s) /\ (Exists(t, s) => Find(t, s) = <<>> \/ t[Find(t, s)].k # LinkK)
PartsOk == \A s \in TextsOf: LET a == Abs(t, s) IN
   /\ DirPart(a) \o BasePart(a) = a /\ BasePart(a) = Core(a) \o (IF LastOf(BasePart(a), DOT) = 0 THEN <<>> ELSE <<DOT>> \o Suf(a))
   /\ (Suf(a) # <<>> \/ LastOf(BasePart(a), DOT) = 0 => Suf(Add(t, s, <<>>, <<95>>)) = Suf(a))
   /\ \A x \in Sufs: LET n == NewSuf(t, s, x) IN n = <<>> \/ (DirPart(n) = DirPart(a) /\ Suf(n) = SufOfName(<<DOT>> \o x))
FindOk == \A s \in TextsOf, x \in Sufs: LET f == Files(t, s, x) p == Find(t, s) IN
   /\ f \subseteq Files(t, s, <<STAR, DOT, STAR>>) /\ f = Files(t, s, Upper(x)) /\ f = Files(t, s, <<DOT>> \o x)
   /\ (p # None /\ Open(t, p) => \A q \in Kids(t, p): (TextOf(q) \in f) <=> (Name(q)[1] # DOT /\ Match(Suf(TextOf(q)), x) /\ Suf(TextOf(q)) # <<>>))
LoadOk == \A s \in TextsOf: LET r == Load(t, s) IN r.ok => \A i \in 1..Len(r.v): r.v[i] # <<>> /\ Trim(r.v[i]) = r.v[i] /\ r.v[i][1] # HASH /\ \A k \in 1..Len(r.v[i]): r.v[i][k] # NL
TreeNames == {<<97>>, <<46, 104>>}
TreeTargets == {<<47, 82, 47, 97>>, <<46, 46>>, <<122>>}
TreeContents == {<<>>}
NamesNames == {<<97>>, <<98, 46, 116>>, <<46, 104>>, <<99, 46>>}
NamesTargets == {<<47, 82, 47, 97>>, <<98, 46, 116>>}
NamesContents == {<<>>}
NamesSufs == {<<116>>, <<84>>, <<116, 46, 117>>, <<>>}
FindNames == {<<98, 46, 84>>, <<46, 116>>, <<116>>, <<99, 46, 116, 46, 117>>}
FindTargets == {<<98, 46, 84>>}
FindContents == {<<97, 10, 32, 35, 10, 10, 98>>}
FindSufs == {<<116>>, <<117>>}
=============================================================================
