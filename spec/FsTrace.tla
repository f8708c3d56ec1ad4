------------------------------ MODULE FsTrace -------------------------------
(* Recorded calls of the file system functions in a scratch tree are steps of Fs. Every event carries the tree
   found afterwards by independent means. *)
EXTENDS TraceBase, Fs
VARIABLE t
vars == <<l, t>>
Seen == [p \in {E.tree[i][1]: i \in 1..Len(E.tree)} |-> LET i == CHOOSE i \in 1..Len(E.tree): E.tree[i][1] = p IN [k |-> E.tree[i][2], m |-> E.tree[i][3], c |-> E.tree[i][4]]]
Init == l = 1 /\ t = [p \in {} |-> 0]
Tree == Chk("tree", t', Seen)
Query == UNCHANGED t /\ Tree
Reset == Is("reset") /\ t' = [p \in {} |-> 0] /\ Tree
\* nodes made by the driver itself
Node == Is("node") /\ t' = With(t, E.p, [k |-> E.k, m |-> E.m, c |-> E.c]) /\ Tree
Chmod == Is("chmod") /\ E.p \in DOMAIN t /\ t' = [t EXCEPT ![E.p].m = E.m] /\ Tree
Res(name, r) == t' = r.t /\ Chk(name, r.ok, E.ok) /\ Tree
There == Chk("directory there afterwards", DirThere(t', E.s), E.dir) /\ Chk("path there afterwards", Exists(t', E.s), E.path) /\ Chk("file there afterwards", Exists(t', E.s), E.file)
MkdirOp == Is("mkdir") /\ Res("made", Mkdir(t, E.s)) /\ There
CleanOp == Is("clean") /\ Res("cleaned", Clean(t, E.s)) /\ There
DeleteOp == Is("delete") /\ Res("deleted", Delete(t, E.s)) /\ There
FlatOp == Is("flat") /\ t' = DeleteFlat(t, E.s).t /\ Tree /\ There
UnlinkOp == Is("unlink") /\ Res("file deleted", DeleteFile(t, E.s)) /\ There
ExistOp == Is("exist") /\ Query /\ There
AllOp == Is("all") /\ Query /\ Chk("all exist", E.f # <<>> /\ \A i \in 1..Len(E.f): Exists(t, E.f[i]), E.ok)
RangeOf(q) == {q[i]: i \in 1..Len(q)}
FindOp == Is("find") /\ Query /\ Chk("files", Files(t, E.s, E.x), RangeOf(E.f)) /\ Ok("each once", Len(E.f) = Cardinality(RangeOf(E.f)))
LoadOp == Is("load") /\ Query /\ LET r == Load(t, E.s) IN Chk("loaded", r.ok, E.ok) /\ Chk("lines", r.v, E.f)
\* file names: of files, there or not
PathOp == /\ Is("path") /\ Query
          /\ LET a == Abs(t, E.s)
             IN /\ Chk("absolute", a, E.abs) /\ Chk("absolute again", a, E.abs2) /\ Chk("directory", DirOf(t, E.s), E.dir)
                /\ (~DirThere(t, E.s) => /\ Chk("core name", Core(a), E.core) /\ Chk("suffix", Suf(a), E.suf)
                                        /\ Chk("suffix replaced", NewSuf(t, E.s, E.n), E.rep)
                                        /\ Chk("appended", Add(t, E.s, <<>>, <<E.d>> \o E.n), E.app) /\ Chk("appended number", Add(t, E.s, <<>>, <<E.d>> \o E.num), E.appn)
                                        /\ Chk("prefixed", Add(t, E.s, E.n \o <<E.d>>, <<>>), E.pre) /\ Chk("prefixed number", Add(t, E.s, E.num \o <<E.d>>, <<>>), E.pren)
                                        /\ Chk("put together", Concat(t, DirPart(a), Core(a), Suf(a)), E.cat))
ConcatOp == Is("concat") /\ Query /\ Chk("concatenated", Concat(t, E.s, E.core, E.suf), E.cat)
AppOp == Is("app") /\ Query /\ Ok("path of the program", E.ok)
Next == Reset \/ Node \/ Chmod \/ MkdirOp \/ CleanOp \/ DeleteOp \/ FlatOp \/ UnlinkOp \/ ExistOp \/ AllOp \/ FindOp \/ LoadOp \/ PathOp \/ ConcatOp \/ AppOp
Spec == Init /\ [][Next]_vars
=============================================================================
