----------------------------- MODULE GridFsTrace -----------------------------
(* Recorded calls of the file store's client are steps of GridFs.  Every event carries the files and collections
   the server holds afterwards and the failures it gave during the call. *)
EXTENDS TraceBase, GridFs, DocDates
VARIABLES fs, cl
vars == <<l, fs, cl>>
Init == l = 1 /\ fs = {} /\ cl = {}
SetOf(s) == {s[i]: i \in 1..Len(s)}
After == fs' = SetOf(E.files) /\ cl' = SetOf(E.colls) /\ Ok("no file twice", Cardinality(fs') = Len(E.files))
Files0 == After /\ Chk("files", fs, fs')
Quiet == Files0 /\ Ok("databases and collections kept", cl \subseteq cl')
NoStore == E.mode = 2
Reset == Is("reset") /\ After /\ fs' = {} /\ Chk("client", TRUE, E.ok)
Drop == Is("drop") /\ After /\ fs' = {} /\ Chk("handles left open", 0, E.live) /\ Ok("no memory lost", ~E.lost)
Plan == Is("plan") /\ Quiet
MkColl == Is("mkcoll") /\ Files0
Open == Is("open") /\ Quiet /\ Ok("opened", E.ok \/ E.list >= 2)
PutOp == /\ Is("put") /\ After
         /\ IF NoStore THEN ~E.ok /\ fs' = fs
            ELSE Ok("file stored or nothing", Put(fs, fs', E.store, E.name, E.meta, E.data, E.ok, E.write, E.save, E.remove))
PutaOp == /\ Is("puta") /\ After /\ Ok("values kept", E.kept)
          /\ LET opts == IF E.typed THEN E.opts ELSE Append(E.opts, <<"DATATYPE_OUT", E.owntype>>)
             IN IF E.known THEN Ok("array stored in place of the old", Replace(fs, fs', E.store, E.name, opts, E.hdr \o opts, E.data, E.ok, E.find, E.write, E.save, E.remove))
                ELSE Ok("unknown type refused", ~E.ok /\ Added(fs, fs') = {} /\ Untouched(fs, fs', Matching(fs, E.store, E.name, opts)))
GetOp == /\ Is("get") /\ Quiet /\ Ok("no data unless found", E.none)
         /\ IF NoStore THEN Chk("found", FALSE, E.ok) ELSE Ok("data", GetData(fs, E.store, E.name, E.opts, E.ok, E.data, E.find, E.read))
MetaOp == /\ Is("meta") /\ Quiet
          /\ IF NoStore THEN Chk("found", FALSE, E.ok) ELSE Ok("metadata", GetMeta(fs, E.store, E.name, E.opts, E.ok, E.meta, E.find))
HasOp == /\ Is("has") /\ Quiet
         /\ IF NoStore THEN Chk("found", FALSE, E.ok) ELSE Ok("found", Found(fs, E.store, E.name, E.opts, E.ok, E.find))
DelOp == /\ Is("del") /\ After
         /\ IF NoStore THEN Chk("removed", FALSE, E.ok) /\ fs' = fs
            ELSE Ok("removed", Removed(fs, fs', E.store, E.name, E.opts, E.ok, E.find, E.remove))
Count(s, x) == Cardinality({i \in 1..Len(s): s[i] = x})
NamesOp == /\ Is("names") /\ Quiet
           /\ IF NoStore THEN Chk("names", <<>>, E.v)
              ELSE IF E.find + E.list > 0 THEN TRUE  \* a listing that breaks off has no way to say so
              ELSE LET S == {f \in fs: f.st = E.store}
                   IN /\ Chk("number of names", Cardinality(S), Len(E.v))
                      /\ \A f \in S: Chk("name", Cardinality({g \in S: g.name = f.name}), Count(E.v, f.name))
Old == <<"old">>
DbsOp == /\ Is("dbs") /\ Quiet
         /\ IF E.list > 0 THEN Chk("databases", Old, E.v) ELSE Chk("databases", {c[1]: c \in cl}, SetOf(E.v)) /\ Ok("each once", Len(E.v) = Cardinality(SetOf(E.v)))
CollsOp == /\ Is("colls") /\ Quiet
           /\ LET cs == {c[2]: c \in {d \in cl: d[1] = E.db}}
              IN IF E.list > 0 THEN Chk("collections", Old, E.v) ELSE Chk("collections", cs \cup Stores(cs), SetOf(E.v))
CollOp == /\ Is("coll") /\ Quiet
          /\ LET S == {c \in cl: c[1] = E.db /\ c[2] = E.c}
             IN /\ (E.ok \/ E.list = 0 => Chk("collection there", S # {}, E.ok))
                /\ (E.ok => Ok("number of documents", IF E.list > 0 THEN E.n = -1 ELSE \E c \in S: c[3] = E.n))
\* reading one value of a document: the type and text it was stored with
ValOp == /\ Is("val") /\ Quiet
         /\ LET number == E.t \in {"i", "l", "d"} \/ (E.t = "s" /\ E.isnum)
                refused == E.t \in {"-", "n", "b", "t"} \/ (E.t = "s" /\ ~E.digits)
            IN /\ (number => /\ Ok("number read", E.okd /\ E.okf /\ E.oki) /\ Chk("number", E.num, E.d) /\ Ok("as float and whole number", E.f /\ E.i))
               /\ (refused => Ok("no number", ~E.okd /\ ~E.okf /\ ~E.oki /\ E.untouched))
               /\ (E.t = "s" => Chk("text", E.txt, E.s))
               /\ (E.t \in {"i", "l"} => Chk("whole number as text", E.txt, E.s))
               /\ (E.t = "d" => Ok("number as text", E.snum))
               /\ (E.t \in {"-", "n"} => Chk("no text", <<>>, E.s))
               /\ Chk("truth", CASE E.t \in {"i", "l", "d"} -> ~E.zero [] E.t = "s" -> E.true [] E.t = "b" -> E.txt = <<49>> [] OTHER -> FALSE, E.bool)
               /\ (E.t = "t" => Chk("instant", E.want, E.got))
               /\ (E.t = "s" /\ IsStamp(E.txt) => Chk("instant kept as text", StampOf(E.txt), E.got))
               /\ (E.t \in {"-", "n", "i", "l", "d", "b"} => Chk("no instant", <<0, -1>>, E.got))
Next == Drop \/ Reset \/ Plan \/ MkColl \/ Open \/ PutOp \/ PutaOp \/ GetOp \/ MetaOp \/ HasOp \/ DelOp \/ NamesOp \/ DbsOp \/ CollsOp \/ CollOp \/ ValOp
Spec == Init /\ [][Next]_vars
=============================================================================
