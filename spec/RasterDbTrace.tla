--------------------------- MODULE RasterDbTrace ---------------------------
(* Recorded runs of the raster class over the file store of the database.  E.db is everything stored after the call,
   read past the code under test; E.faults the failures the server gave during it. *)
EXTENDS RasterTrace, RasterDb
VARIABLE db
dvars == <<l, reg, files, db>>
DbAfter == {E.db[i]: i \in 1..Len(E.db)}
InitDb == Init /\ db = {}
KeepDb == db' = db /\ Chk("store unchanged", db, DbAfter)
\* ------------------------------------------------------------- storing
Has(r) == r.live /\ r.has
Matches(f, w) == f.name = w.name /\ f.opts = E.mopts /\ f.fits /\ \A x \in DOMAIN w: f[x] = w[x]
Words(o) == LET want == [i \in 1..Len(o) |-> o[i]] IN want
\* the words filed with the raster: those given, what it holds, its type
WordsRight(r) == /\ Ok("words given", ToSet(E.given) \subseteq ToSet(E.mopts))
                 /\ Ok("cells kept", Pair("INCLUDE_NODATA", IncWord(E.inc)) \in ToSet(E.mopts))
                 /\ Ok("type", (\E k \in {"UINT8", "INT8", "UINT16", "INT16", "UINT32", "INT32", "FLOAT", "DOUBLE"}: Pair("DATATYPE_OUT", "s:" \o k) \in ToSet(E.given))
                             \/ Pair("DATATYPE_OUT", "s:" \o (IF r.ot = "Unknown" THEN E.vt ELSE r.ot)) \in ToSet(E.mopts))
                 /\ Ok("projection", Pair("SRS", "s:" \o r.srs) \in ToSet(E.mopts))
Stored(o) ==
  LET new == DbAfter \ db
      gone == db \ DbAfter
      M == UNION {Answers(db, o.f[j].name, E.mopts): j \in 1..Len(o.f)}
  IN /\ db' = DbAfter
     /\ Ok("other files kept", gone \subseteq M)
     /\ (E.ok => /\ Ok("replaced", gone = M) /\ Chk("files stored", {o.f[j].name: j \in 1..Len(o.f)}, {f.name: f \in new})
                 /\ Ok("each once", Cardinality(new) = Len(o.f))
                 /\ WordsRight(o.r))
     /\ \A f \in new: \E j \in 1..Len(o.f): /\ o.f[j].name = f.name /\ Chk("words", E.mopts, f.opts) /\ Ok("values whole", f.fits)
                                            /\ \A x \in DOMAIN o.f[j]: Chk(<<"stored", x>>, IF x = "v" THEN Cast(Cast((o.f[j])[x], E.vt), f.ot) ELSE (o.f[j])[x], f[x])
MOut == /\ (Is("mout") \/ Is("moutsub")) /\ KeepFiles
        /\ IF ~Has(R) THEN Chk("stored", FALSE, E.ok) /\ Step(reg) /\ KeepDb
           ELSE LET o == IF E.op = "mout" /\ E.org THEN StoreWhole(R, E.name, E.inc)
                         ELSE IF E.comb THEN StoreCombined(R, E.name, E.inc, E.org, E.recls, E.dflt)
                         ELSE StoreEach(R, E.name, E.inc, E.org, E.recls, E.dflt)
                    bare == E.op = "moutsub" /\ E.comb = FALSE /\ o.f = <<>>   \* nothing to store: either answer
                IN /\ Ok("stored", E.ok = o.ok \/ (~E.ok /\ (o.may \/ E.faults > 0)) \/ bare)
                   /\ IF o.ok THEN Stored(o) ELSE KeepDb
                   /\ Step(Put(o.r))
\* ------------------------------------------------------------- reading
As(f) == IF f.bad THEN f ELSE [f EXCEPT !.v = Cast(f.v, E.vt)]   \* in numbers of the reader
MRead == /\ Is("mread") /\ KeepFiles /\ KeepDb
         /\ LET M == Answers(db, E.name, E.filter)
                masks == {reg, UseMask(reg, E.m)}
                got(f) == DbRead(As(f), E.calc, MaskReg(E.m), E.m, E.ext /\ E.m >= 0, E.dflt)
            IN IF E.ok THEN \E f \in M: LET x == got(f) IN Ok("readable", x.ok) /\ \E b \in masks: Step([b EXCEPT ![E.r] = x.r])
               ELSE /\ Ok("nothing to read", E.faults > 0 \/ M = {} \/ \E f \in M: ~got(f).ok)
                    /\ Ok("refused raster stays refused", E.left /\ "never" \notin DOMAIN E)
                    /\ \E b \in masks: Step([b EXCEPT ![E.r] = None])
MPre == /\ Is("mpre") /\ KeepFiles /\ KeepDb
        /\ LET M == Answers(db, E.name, E.filter)
               m == reg[E.src]
               got(f) == IF ~Has(m) THEN DbRead(As(f), FALSE, None, -1, FALSE, NODATA) ELSE DbFill(As(f), m)
           IN IF E.ok THEN \E f \in M: LET x == got(f) IN Ok("readable", x.ok) /\ Step(Put(x.r))
              ELSE /\ Ok("nothing to read", E.faults > 0 \/ M = {} \/ \E f \in M: ~got(f).ok)
                   /\ Ok("refused raster stays refused", E.left)
                   /\ Step(Put(None))
SubRead == /\ Is("submread") /\ KeepFiles /\ KeepDb
           /\ LET j == IF Has(R) THEN SubNo(R, E.id) ELSE 0
                  M == Answers(db, E.name, E.filter)
              IN /\ Chk("found", j > 0, E.found)
                 /\ IF j = 0 THEN Step(reg)
                    ELSE IF E.ok THEN \E f \in M: LET x == SubFill(R.subs[j], f) IN Ok("readable", x.ok) /\ Step(Put([R EXCEPT !.subs[j] = x.s]))
                    ELSE /\ Ok("nothing to read", E.faults > 0 \/ M = {} \/ \E f \in M: ~SubFill(R.subs[j], f).ok)
                         /\ Step(reg)
MBad == /\ Is("mbad") /\ KeepFiles /\ Step(reg) /\ Chk("stored", TRUE, E.ok) /\ db' = DbAfter
        /\ Ok("store", db \subseteq DbAfter /\ Cardinality(DbAfter \ db) = 1 /\ \A f \in DbAfter \ db: f.bad)
MPlan == Is("mplan") /\ KeepFiles /\ Step(reg) /\ UNCHANGED db
DropDb == Drop /\ db' = {}
ResetDb == Reset /\ db' = {} /\ Chk("store", <<>>, E.db)
NextDb == DropDb \/ ResetDb \/ (Next /\ ~Is("reset") /\ ~Is("drop") /\ UNCHANGED db) \/ MOut \/ MRead \/ MPre \/ SubRead \/ MBad \/ MPlan
SpecDb == InitDb /\ [][NextDb]_dvars
=============================================================================
