------------------------------ MODULE RasterApp ------------------------------
(* The masking tool.  A request names a mode, a mask layer and a list of entries; each entry names its input
   layers, the output, the value for cells the mask covers but the input does not, the no-data value to put in
   place of the input's, the type, and a table of new values.  The tool answers each entry with files, or stored
   files, and exits with 0 exactly if every entry was answered. *)
EXTENDS RasterDb
BuildIf(r) == IF r.subs # <<>> \/ ~(r.haspos \/ CanCompact(r)) THEN r ELSE Build(Compact(r), <<>>)
\* the mask layer of a request: decomposed into its subsets unless masking is all that is asked for
MaskFor(m, mode) == IF mode = "MASK" \/ ~m.live THEN m ELSE BuildIf(m)
Nothing == [ok |-> FALSE, may |-> FALSE, f |-> <<>>, d |-> <<>>]
Both(a, b) ==   \* b is written after a: in the place of what has its name
  LET Not(y, z) == SelectSeq(y, LAMBDA x: \A i \in 1..Len(z): z[i].name # x.name)
  IN [ok |-> a.ok /\ b.ok, may |-> a.may \/ b.may, f |-> Not(a.f, b.f) \o b.f, d |-> Not(a.d, b.d) \o b.d]
None2 == [ok |-> TRUE, may |-> FALSE, f |-> <<>>, d |-> <<>>]
InFiles(o) == [ok |-> o.ok /\ \A j \in 1..Len(o.f): o.f[j].x.ok, may |-> o.may, f |-> o.f, d |-> <<>>]
InStore(o) == [ok |-> o.ok, may |-> o.may, f |-> <<>>, d |-> o.f]
Whole1(r, e, gfs, inc) == IF gfs THEN InStore(StoreWhole(r, "0_" \o e.core, inc)) ELSE InFiles(OutWhole(r, e.core, e.sfx, "DOUBLE"))
Comb1(r, e, gfs, inc, org, dflt) == IF gfs THEN InStore(StoreCombined(r, e.core, inc, org, e.rec, dflt)) ELSE InFiles(OutCombined(r, e.core, e.sfx, org, e.rec, dflt, "DOUBLE"))
Each1(r, e, gfs, inc) == IF gfs THEN InStore(StoreEach(r, e.core, inc, TRUE, e.rec, e.dflt)) ELSE InFiles(OutEach(r, e.core, e.sfx, TRUE, e.rec, e.dflt, "DOUBLE"))
\* masking and decomposing one input, r the raster read through the mask
Answer(r, e, mode, hasMask, gfs, inc) ==
  LET parts == mode # "MASK"   all == mode # "DEC"
      r1 == IF e.upd THEN ReplaceNod(r, e.nod) ELSE r
      r2 == [(IF e.rec # <<>> \/ (parts /\ ~hasMask) THEN BuildIf(r1) ELSE r1) EXCEPT !.ot = e.ot]
  IN Both(IF parts THEN Each1(r2, e, gfs, inc) ELSE None2,
          IF ~all THEN None2 ELSE IF e.rec # <<>> THEN Comb1(r2, e, gfs, inc, TRUE, e.dflt) ELSE Whole1(r2, e, gfs, inc))
\* combining: each input holds the cells of the subset its name begins with
FromFile(s, m, f) ==
  LET full == f.rows = s.box[2] - s.box[1] + 1 /\ f.cols = s.box[4] - s.box[3] + 1
      some == SelectSeq(f.v, LAMBDA q: q # f.nod)
      Filled(v) == [ok |-> TRUE, s |-> [s EXCEPT !.use = TRUE, !.lyrs = 1, !.data = [i \in 1..s.n |-> <<v[i]>>]]]
  IN IF full THEN Filled([i \in 1..s.n |-> LET q == f.v[s.loc[i] + 1] IN IF q = f.nod THEN m.nod ELSE q])
     ELSE IF Len(some) = s.n THEN Filled(some) ELSE [ok |-> FALSE]
Unused(m) == [m EXCEPT !.subs = [j \in 1..Len(m.subs) |-> [m.subs[j] EXCEPT !.use = FALSE]]]
CombineAll(m, e) == [m EXCEPT !.dflt = IF e.dflt = NODATA THEN m.nod ELSE e.dflt, !.ot = e.ot]
CombineOut(m, e, gfs, inc) == Comb1(m, [e EXCEPT !.rec = <<>>], gfs, inc, FALSE, NODATA)
==============================================================================
