--------------------------- MODULE RasterAppTrace ---------------------------
(* Recorded runs of the masking tool, among files and stored rasters made by the class itself. *)
EXTENDS RasterDbTrace, RasterApp
HasFile(f) == Readable(f)
Asked(e) == {Pair("INCLUDE_NODATA", IncWord(E.inc)), Pair("DATATYPE_OUT", "s:" \o e.ot)}
AnswersTo(name, words) == {f \in db: f.name = name /\ words \subseteq ToSet(f.opts)}
One(S) == CHOOSE x \in S: TRUE
MaskOf ==
  LET M == AnswersTo(E.mask, {Pair("INCLUDE_NODATA", "s:TRUE")})
  IN IF E.maskfmt = "none" THEN [ok |-> TRUE, r |-> None]
     ELSE IF E.maskfmt = "file" THEN (IF HasFile(E.mask) THEN ReadOne(File(E.mask), 1, FALSE, None, -1, FALSE, NODATA) ELSE Refused)
     ELSE IF M = {} THEN Refused ELSE DbRead(One(M), FALSE, None, -1, FALSE, NODATA)
InputOf(e, m) ==
  LET M == AnswersTo(e.in[1], Asked(e))
  IN IF E.infmt = "file" THEN (IF \A j \in 1..Len(e.in): HasFile(e.in[j])
                               THEN ReadFiles([j \in 1..Len(e.in) |-> File(e.in[j])], FALSE, m, IF m.live THEN 0 ELSE -1, m.live, e.dflt) ELSE Refused)
     ELSE IF M = {} THEN Refused ELSE DbRead(One(M), FALSE, m, IF m.live THEN 0 ELSE -1, m.live, e.dflt)
\* one entry: [m: the mask layer afterwards, o: the answer]
MaskEntry(m, e) == LET x == InputOf(e, m) IN [m |-> m, o |-> IF x.ok THEN Answer(x.r, e, E.mode, m.live, E.outfmt = "gfs", E.inc) ELSE Nothing]
CombineEntry(m, e) ==
  LET Into(a, j) ==
        LET k == SubNo(a.m, e.ids[j])
            M == AnswersTo(e.in[j], Asked(e))
            s == a.m.subs[k]
            x == IF E.infmt = "file" THEN (IF HasFile(e.in[j]) THEN FromFile(s, a.m, File(e.in[j])) ELSE [ok |-> FALSE])
                 ELSE IF M = {} THEN [ok |-> FALSE] ELSE SubFill(s, One(M))
        IN IF k = 0 THEN a ELSE IF x.ok THEN [a EXCEPT !.m.subs[k] = x.s] ELSE [a EXCEPT !.ok = FALSE]
      all == FoldLeft(Into, [m |-> Unused(m), ok |-> TRUE], [j \in 1..Len(e.in) |-> j])   \* names of no subset are passed over
      m1 == CombineAll(all.m, e)
      o == CombineOut(m1, e, E.outfmt = "gfs", E.inc)
      gone == E.infmt = "file" /\ \E j \in 1..Len(e.in): ~HasFile(e.in[j])   \* of no subset: passed over or reported
  IN [m |-> m1, o |-> [o EXCEPT !.ok = o.ok /\ all.ok, !.may = o.may \/ gone]]
Entries(m) ==
  LET Do(a, e) == LET x == IF E.mode = "COM" THEN CombineEntry(a.m, e) ELSE MaskEntry(a.m, e) IN [m |-> x.m, os |-> Append(a.os, x.o)]
  IN FoldLeft(Do, [m |-> m, os |-> <<>>], E.ents).os
Clean == /\ Chk("files written", <<>>, E.files) /\ KeepFiles /\ KeepDb
AppFiles(os) ==
  LET got == [j \in 1..Len(E.files) |-> E.files[j].name]
      ok == {k \in 1..Len(os): os[k].ok}
      sure == {k \in ok: E.exit = 0 \/ ~os[k].may}
      want == UNION {{os[k].f[j].name: j \in 1..Len(os[k].f)}: k \in sure}
      might == UNION {{os[k].f[j].name: j \in 1..Len(os[k].f)}: k \in 1..Len(os)}
      outs == FlattenSeq([k \in 1..Len(os) |-> [j \in 1..Len(os[k].f) |-> [f |-> os[k].f[j].name, c |-> [rows |-> os[k].f[j].x.c.rows, cols |-> os[k].f[j].x.c.cols,
                 geo |-> os[k].f[j].x.c.geo, nod |-> os[k].f[j].x.c.nod, v |-> os[k].f[j].x.c.v, ot |-> IF E.ents[k].sfx = "tif" THEN E.ents[k].ot ELSE "Unknown"]]]])
  IN /\ Chk("every file asked for", want \ ToSet(got), {}) /\ Chk("no other file", ToSet(got) \ might, {})
     /\ \A k \in sure: \A j \in 1..Len(os[k].f): CheckFile(os[k].f[j].name, os[k].f[j].x.c, E.files[Find(got, os[k].f[j].name)].c)
     /\ IF E.exit # 0 THEN KeepFiles
        ELSE files' = SelectSeq(files, LAMBDA x: \A j \in 1..Len(outs): outs[j].f # x.f) \o outs
AppStore(os) ==
  LET new == DbAfter \ db
      gone == db \ DbAfter
      ok == {k \in 1..Len(os): os[k].ok}
      sure == {k \in ok: E.exit = 0 \/ ~os[k].may}
      want == UNION {{os[k].d[j].name: j \in 1..Len(os[k].d)}: k \in sure}
      might == UNION {{os[k].d[j].name: j \in 1..Len(os[k].d)}: k \in 1..Len(os)}
      Right(w, f, e) == /\ Chk("type of a stored file", e.ot, f.ot) /\ Ok("values whole", f.fits) /\ Ok("words", Asked(e) \subseteq ToSet(f.opts))
                        /\ \A x \in DOMAIN w: Chk(<<"stored", x>>, IF x = "v" THEN Cast(w[x], e.ot) ELSE w[x], f[x])
  IN /\ db' = DbAfter
     /\ Ok("every stored file asked for", want \subseteq {f.name: f \in new}) /\ Ok("no other stored file", {f.name: f \in new} \subseteq might)
     /\ Ok("each stored once", Cardinality(new) = Cardinality({f.name: f \in new}))
     /\ \A g \in gone: Ok("kept", \E f \in new: f.name = g.name /\ ToSet(f.opts) = ToSet(g.opts))
     /\ \A g \in db \cap DbAfter: Ok("replaced", ~\E f \in new: f.name = g.name /\ ToSet(f.opts) \subseteq ToSet(g.opts))
     /\ \A k \in ok: \A j \in 1..Len(os[k].d): \A f \in new: (f.name = os[k].d[j].name => Right(os[k].d[j], f, E.ents[k]))
App == /\ Is("app") /\ Step(reg)
       /\ LET m0 == MaskOf
              m == MaskFor(m0.r, E.mode)
              os == Entries(m)
          IN IF E.mode \notin {"MASK", "DEC", "MASKDEC", "COM"} \/ ~m0.ok \/ (E.mode = "COM" /\ E.maskfmt = "none" /\ E.ents # <<>>)
             THEN Ok("reported", E.exit # 0) /\ Clean
             ELSE /\ Ok(<<"answered", [k \in 1..Len(os) |-> os[k].ok]>>, IF \A k \in 1..Len(os): os[k].ok THEN E.exit = 0 \/ \E k \in 1..Len(os): os[k].may ELSE E.exit # 0)
                  /\ AppFiles(os) /\ AppStore(os)
AppBad == Is("appbad") /\ Step(reg) /\ Ok("reported", E.exit # 0 \/ E.kind \in {3, 10}) /\ Ok("ended by itself", E.exit \in 0..3) /\ Clean   \* 3, 10: no configuration file named
SpecApp == InitDb /\ [][NextDb \/ App \/ AppBad]_dvars
=============================================================================
