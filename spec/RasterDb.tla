------------------------------ MODULE RasterDb ------------------------------
(* Rasters kept in a database.  A stored raster is a record [id, name, opts, rows, cols, geo, nod, L, n, ot, srs, v]:
   the grid it describes, how many cells of it are kept (all of them, or the valid ones only), and the values cell by
   cell; opts are the words it is filed under.  A file that is no raster has bad = TRUE. *)
EXTENDS Raster
Pair(k, v) == <<k, v>>
IncWord(inc) == IF inc THEN "s:TRUE" ELSE "s:FALSE"
\* a file answers to a name and some of its words
Answers(db, name, words) == {f \in db: f.name = name /\ ToSet(words) \subseteq ToSet(f.opts)}
IncludesNoData(f) == ~ \E i \in 1..Len(f.opts): f.opts[i] = Pair("INCLUDE_NODATA", "s:FALSE")
\* numbers of a kind without fractions lose them
WholeKind(t) == t \in {"INT32"}
Cast(v, t) == IF WholeKind(t) THEN [i \in 1..Len(v) |-> [k \in 1..Len(v[i]) |-> 4 * Trunc(v[i][k])]] ELSE v
\* ------------------------------------------------------------- storing
Kept(name, h, L, v) == [name |-> name, rows |-> h.rows, cols |-> h.cols, geo |-> h.geo, nod |-> h.nod, L |-> L, n |-> Len(v), v |-> v]
AllCells(r) == [p \in 1..(r.rows * r.cols) |-> At(r, RowOf(r, p - 1), ColOf(r, p - 1))]
StoreWhole(r, name, inc) ==
  LET can == inc \/ r.haspos \/ CanCompact(r)
      r1 == IF inc \/ ~can THEN r ELSE Compact(r)
  IN [ok |-> can, may |-> FALSE, r |-> r1, f |-> IF can THEN <<Kept(name, GridHead(r1), r1.L, IF inc THEN AllCells(r1) ELSE r1.v)>> ELSE <<>>]
StoreCombined(r, name, inc, org, rec, dflt) ==
  LET c == Combined(r, org, rec, dflt)
  IN [ok |-> c.can, may |-> c.may, r |-> r,
      f |-> IF ~c.can THEN <<>> ELSE <<Kept("0_" \o name, GridHead(r), c.L, IF inc THEN c.v ELSE [i \in 1..N(r) |-> c.v[CellNo(r, i) + 1]])>>]
StoreEach(r, name, inc, org, rec, dflt0) ==
  LET dflt == OutDflt(r, dflt0)
      able == Able(r, org, rec)
      One(s) == LET L == SubLyrs(r, s, org, rec)
                    h == SubHead(r, s)
                    cell(i) == [k \in 1..L |-> IF i = 0 THEN r.nod ELSE SubVal(r, s, i, k, org, rec, dflt)]
                IN Kept(ToString(s.id) \o "_" \o name, h, L, IF inc THEN [p \in 1..(h.rows * h.cols) |-> cell(Find(s.loc, p - 1))] ELSE [i \in 1..s.n |-> cell(i)])
  IN [ok |-> r.subs # <<>>, may |-> FALSE, r |-> r, f |-> [j \in 1..Len(able) |-> One(able[j])]]
\* ------------------------------------------------------------- reading
Shell(f, dflt) == [FromArray(f.L > 1, f.rows, f.cols, f.L, f.nod, f.geo, f.v, f.srs, f.ot) EXCEPT !.dflt = DefaultOf(f, dflt)]
Refused == [ok |-> FALSE, r |-> None]
DbRead(f, calc, m, mreg, ext, dflt) ==
  LET w == Shell(f, dflt)
      usable == m.live /\ m.has /\ (m.haspos \/ CanCompact(m))
      mc == Compact(m)
      \* valid cells alone lie where those of the mask lie
      onMask == [w EXCEPT !.haspos = TRUE, !.calc = TRUE, !.pos = mc.pos, !.ext = TRUE, !.mask = mreg,
                          !.subs = [j \in 1..Len(mc.subs) |-> [mc.subs[j] EXCEPT !.lyrs = f.L, !.data = <<>>]]]
  IN IF f.bad THEN Refused
     ELSE IF ~IncludesNoData(f) THEN
       (IF mreg >= 0 /\ ext /\ usable /\ N(mc) = f.n /\ mc.rows = f.rows /\ mc.cols = f.cols THEN [ok |-> TRUE, r |-> onMask] ELSE Refused)
     ELSE IF f.n # f.rows * f.cols THEN Refused
     ELSE IF m.live THEN (IF ~usable THEN Refused ELSE Masked(w, mc, mreg, calc, ext))
     ELSE IF ~calc THEN [ok |-> TRUE, r |-> w]
     ELSE IF CanCompact(w) THEN [ok |-> TRUE, r |-> Compact(w)] ELSE Refused
\* the values of a raster whose header, and positions if only valid cells are kept, come from raster m
DbFill(f, m) ==
  LET inc == IncludesNoData(f)
      same == f.rows = m.rows /\ f.cols = m.cols /\ f.L = m.L /\ f.n = N(m)
      w == [Shell([f EXCEPT !.geo = m.geo, !.nod = m.nod], NODATA) EXCEPT !.haspos = ~inc, !.pos = IF inc THEN <<>> ELSE m.pos, !.calc = ~inc]
  IN IF f.bad THEN Refused ELSE IF ~same \/ (~inc /\ ~m.haspos) \/ (inc /\ f.n # f.rows * f.cols) THEN Refused ELSE [ok |-> TRUE, r |-> w]
\* the data of one subset
SubFill(s, f) ==
  LET full == (s.box[2] - s.box[1] + 1) * (s.box[4] - s.box[3] + 1)
  IN IF f.bad THEN [ok |-> FALSE] ELSE IF f.n # s.n /\ f.n # full THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, s |-> [s EXCEPT !.use = TRUE, !.lyrs = f.L, !.data = [i \in 1..s.n |-> f.v[IF f.n = s.n THEN i ELSE s.loc[i] + 1]]]]
=============================================================================
