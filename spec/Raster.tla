------------------------------- MODULE Raster -------------------------------
(* What rasters are.  A raster is a grid of cells with L layers of integer-coded values, held
   whole (haspos = FALSE, one entry of v per cell, row by row) or as its valid cells only
   (haspos = TRUE, pos = ascending cell numbers, one entry of v per position).  Cell numbers and
   indices count from 0, as in the programming interface.  Everything here is a pure function;
   the state machines that use it are RasterTrace and MCRaster. *)
EXTENDS RasterGeo, FiniteSets, TLC, FiniteSetsExt, SequencesExt
NODATA == -9999 * 4
HUGEV == -2000000002       \* numbers beyond the range of the encoding, e.g. the no-data of INT32
\* ------------------------------------------------------------- reading cells
N(r) == Len(r.v)
Flat(r, row, col) == row * r.cols + col
Find(s, x) == LET S == {i \in 1..Len(s): s[i] = x} IN IF S = {} THEN 0 ELSE CHOOSE i \in S: TRUE
\* index of a cell: -2 not in the grid, -1 no storage, else from 0
Index(r, row, col) == IF ~InGrid(r, row, col) THEN -2
                      ELSE IF ~r.haspos THEN Flat(r, row, col) ELSE Find(r.pos, Flat(r, row, col)) - 1
IndexXY(r, x, y) == LET c == CellAt(r, x, y) IN IF c = Outside THEN -2 ELSE Index(r, c[1], c[2])
NoData(r) == [k \in 1..r.L |-> r.nod]
At(r, row, col) == LET i == Index(r, row, col) IN IF i < 0 THEN NoData(r) ELSE r.v[i + 1]
Valid1(r, i) == r.v[i][1] # r.nod
CellNo(r, i) == IF r.haspos THEN r.pos[i] ELSE i - 1
RowOf(r, p) == p \div r.cols
ColOf(r, p) == p % r.cols
Trunc(q) == IF q >= 0 THEN q \div 4 ELSE -((-q) \div 4)
Pick(n, Test(_)) == SelectSeq([i \in 1..n |-> i], Test)
Min2(S) == CHOOSE x \in S: \A y \in S: x <= y
Max2(S) == CHOOSE x \in S: \A y \in S: x >= y
\* ------------------------------------------------------------- constructors
None == [live |-> FALSE]
Blank(two) == [live |-> TRUE, has |-> FALSE, two |-> two]
FromArray(two, rows, cols, L, nod, geo, v, srs, ot) ==
  [live |-> TRUE, has |-> TRUE, two |-> two, rows |-> rows, cols |-> cols, geo |-> geo, L |-> L, nod |-> nod,
   dflt |-> NODATA, calc |-> FALSE, ext |-> FALSE, mask |-> -1, haspos |-> FALSE, pos |-> <<>>, v |-> v,
   srs |-> srs, ot |-> ot, subs |-> <<>>, cached |-> FALSE, stale |-> FALSE]
ChangeValues(r) == [r EXCEPT !.stale = r.cached]
\* the valid cells only; a raster without any cannot be held that way
CanCompact(r) == \E i \in 1..N(r): Valid1(r, i)
SubsetTo(r2, s, cells) ==   \* subset s made of the given ascending cell numbers of raster r2
  LET rows == {RowOf(r2, p): p \in ToSet(cells)}
      cols == {ColOf(r2, p): p \in ToSet(cells)}
      box == <<Min2(rows), Max2(rows), Min2(cols), Max2(cols)>>
      w == box[4] - box[3] + 1
  IN [s EXCEPT !.n = Len(cells), !.box = box,
               !.glob = [i \in 1..Len(cells) |-> Index(r2, RowOf(r2, cells[i]), ColOf(r2, cells[i]))],
               !.loc = [i \in 1..Len(cells) |-> (RowOf(r2, cells[i]) - box[1]) * w + (ColOf(r2, cells[i]) - box[3])]]
SubCells(r, s) == [i \in 1..s.n |-> CellNo(r, s.glob[i] + 1)]
Compact(r) ==
  IF r.haspos THEN r ELSE
  LET keep == Pick(N(r), LAMBDA i: Valid1(r, i))
      r2 == [r EXCEPT !.haspos = TRUE, !.calc = TRUE, !.stale = r.stale \/ (r.cached /\ r.L > 1), !.pos = [i \in 1..Len(keep) |-> keep[i] - 1],
                      !.v = [i \in 1..Len(keep) |-> r.v[keep[i]]]]
      \* subsets follow their cells; those that are no longer valid leave, with the subsets of nothing else
      Follow(s) == LET q == Pick(s.n, LAMBDA i: Find(r2.pos, s.glob[i]) > 0)
                   IN [s EXCEPT !.n = Len(q), !.glob = [i \in 1..Len(q) |-> Find(r2.pos, s.glob[q[i]]) - 1],
                                !.loc = [i \in 1..Len(q) |-> s.loc[q[i]]],
                                !.data = IF s.data = <<>> THEN <<>> ELSE [i \in 1..Len(q) |-> s.data[q[i]]]]
  IN [r2 EXCEPT !.subs = SelectSeq([j \in 1..Len(r.subs) |-> Follow(r.subs[j])], LAMBDA s: s.n > 0)]
\* ------------------------------------------------------------- masking
(* The source raster r seen through mask m (which holds its valid cells only).  Every valid
   mask cell takes the values of the source cell that contains its centre; where the source has
   no data there it takes the default value.  The result lies on the mask's grid if the data
   spans it or that is asked for (ext), else on the smallest part of it that contains data. *)
Fill(r, q) == IF q = r.nod /\ r.dflt # r.nod THEN r.dflt ELSE q
Masked(r, m, mreg, calc, ext) ==
  LET P == m.pos
      C == [i \in 1..Len(P) |-> LET c == Centre(m, RowOf(m, P[i]), ColOf(m, P[i])) IN CellAt(r, c[1], c[2])]
      S == [i \in 1..Len(P) |-> At(r, C[i][1], C[i][2])]   \* source values, no-data outside
      In == {i \in 1..Len(P): C[i] # Outside}
      Hit == {i \in In: S[i][1] # r.nod}
      V == [i \in 1..Len(P) |-> IF i \in In THEN [k \in 1..r.L |-> Fill(r, S[i][k])] ELSE NoData(r)]
      rs == {RowOf(m, P[i]): i \in Hit}
      cs == {ColOf(m, P[i]): i \in Hit}
      whole == Hit # {} /\ (Max2(rs) - Min2(rs)) + 1 = m.rows /\ (Max2(cs) - Min2(cs)) + 1 = m.cols
      exact == Cardinality(Hit) = Len(P)
      base == [r EXCEPT !.rows = m.rows, !.cols = m.cols, !.geo = m.geo, !.srs = m.srs, !.ext = ext, !.mask = -1,
                        !.haspos = TRUE, !.calc = TRUE, !.subs = <<>>]
      onMask == [base EXCEPT !.pos = P, !.v = V, !.mask = mreg]
      dataOnly == LET keep == Pick(Len(P), LAMBDA i: V[i][1] # r.nod)
                  IN [base EXCEPT !.pos = [j \in 1..Len(keep) |-> P[keep[j]]], !.v = [j \in 1..Len(keep) |-> V[keep[j]]]]
      r0 == Min2(rs)   c0 == Min2(cs)   r1 == Max2(rs)   c1 == Max2(cs)
      ncol == c1 - c0 + 1
      InBox(i) == LET a == RowOf(m, P[i]) b == ColOf(m, P[i]) IN a >= r0 /\ a <= r1 /\ b >= c0 /\ b <= c1
      Sh(p) == (RowOf(m, p) - r0) * ncol + (ColOf(m, p) - c0)
      crop == [base EXCEPT !.rows = r1 - r0 + 1, !.cols = ncol,
                           !.geo = <<m.geo[1] + c0 * m.geo[3], m.geo[2] + (m.rows - 1 - r1) * m.geo[3], m.geo[3]>>]
      cropCompact == LET keep == Pick(Len(P), LAMBDA i: InBox(i) /\ V[i][1] # r.nod)
                     IN [crop EXCEPT !.pos = [j \in 1..Len(keep) |-> Sh(P[keep[j]])], !.v = [j \in 1..Len(keep) |-> V[keep[j]]]]
      cropFull == LET at == [i \in {j \in 1..Len(P): InBox(j)} |-> Sh(P[i])]
                  IN [crop EXCEPT !.haspos = FALSE, !.calc = FALSE, !.pos = <<>>,
                       !.v = [p \in 1..((r1 - r0 + 1) * ncol) |->
                               IF \E i \in DOMAIN at: at[i] = p - 1 THEN V[CHOOSE i \in DOMAIN at: at[i] = p - 1] ELSE NoData(r)]]
      res == IF whole \/ ext THEN (IF calc /\ ~exact THEN dataOnly ELSE onMask)
             ELSE IF calc THEN cropCompact ELSE cropFull
      \* the mask's subsets, restricted to the cells of the result
      Kept(s) == LET cc == SubCells(m, s)
                     In2(p) == LET c == Centre(m, RowOf(m, p), ColOf(m, p)) d == CellAt(res, c[1], c[2])
                               IN d # Outside /\ Index(res, d[1], d[2]) >= 0 /\ At(res, d[1], d[2])[1] # r.nod
                     q == SelectSeq(cc, In2)
                 IN [i \in 1..Len(q) |-> LET c == Centre(m, RowOf(m, q[i]), ColOf(m, q[i])) d == CellAt(res, c[1], c[2]) IN Flat(res, d[1], d[2])]
      subs == LET withData == SelectSeq(m.subs, LAMBDA s: Len(Kept(s)) > 0)
              IN [j \in 1..Len(withData) |->
                    LET s == [withData[j] EXCEPT !.lyrs = r.L, !.data = <<>>]
                    IN IF res.mask >= 0 THEN s ELSE SubsetTo(res, s, Kept(withData[j]))]
  IN IF In = {} \/ (Hit = {} /\ (~ext \/ r.dflt = r.nod)) THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, r |-> [res EXCEPT !.subs = subs]]
\* ------------------------------------------------------------- ASCII grids
(* The text of an ASCII grid: lines of tokens <<"h", key>>, <<"n", value>> and <<"x", text>>.  Header
   lines may come in any order, the values may be broken into lines anywhere. *)
AscKeys == {"NCOLS", "NROWS", "XLLCENTER", "XLLCORNER", "YLLCENTER", "YLLCORNER", "CELLSIZE", "NODATA_VALUE"}
AscParse(lines) ==
  LET body == SelectSeq(lines, LAMBDA x: Len(x) > 0)
      IsHead(x) == x[1][1] = "h"
      heads == SelectSeq(body, IsHead)
      data == SelectSeq(body, LAMBDA x: ~IsHead(x))
      KeyOf(x) == x[1][2]
      Has(k) == \E i \in 1..Len(heads): KeyOf(heads[i]) = k
      Get(k) == (heads[CHOOSE i \in 1..Len(heads): KeyOf(heads[i]) = k])[2][2]
      toks == FlattenSeq(data)
      numbers == /\ \A i \in 1..Len(heads): Len(heads[i]) >= 2 /\ heads[i][2][1] = "n"
                 /\ \A i \in 1..Len(toks): toks[i][1] = "n"
      firstData == CHOOSE i \in 1..Len(body): ~IsHead(body[i]) /\ \A j \in 1..(i - 1): IsHead(body[j])
      sized(k) == \E j \in 1..(firstData - 1): IsHead(body[j]) /\ KeyOf(body[j]) = k
      have == /\ Has("NCOLS") /\ Has("NROWS") /\ Has("CELLSIZE") /\ (Has("XLLCENTER") \/ Has("XLLCORNER"))
              /\ (Has("YLLCENTER") \/ Has("YLLCORNER"))
      cs == 2 * Get("CELLSIZE")                       \* quarters to eighths
      x == IF Has("XLLCORNER") THEN 2 * Get("XLLCORNER") + cs \div 2 ELSE 2 * Get("XLLCENTER")
      y == IF Has("YLLCORNER") THEN 2 * Get("YLLCORNER") + cs \div 2 ELSE 2 * Get("YLLCENTER")
      rows == Get("NROWS") \div 4   cols == Get("NCOLS") \div 4
      ok == /\ numbers /\ have /\ data # <<>> /\ sized("NCOLS") /\ sized("NROWS")
            /\ Get("NROWS") % 4 = 0 /\ Get("NCOLS") % 4 = 0 /\ rows >= 1 /\ cols >= 1 /\ cs >= 0 /\ Len(toks) = rows * cols
  IN IF ~ok THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE,
           c |-> [rows |-> rows, cols |-> cols, geo |-> <<x, y, cs>>, nod |-> IF Has("NODATA_VALUE") THEN Get("NODATA_VALUE") ELSE HUGEV,
                  v |-> [i \in 1..Len(toks) |-> toks[i][2]], ot |-> "Unknown"]]
\* ------------------------------------------------------------- reading files
\* file: [rows, cols, geo, nod, v (one value per cell), ot]; m = None without a mask
DefaultOf(f, dflt) == IF dflt = NODATA /\ f.nod # NODATA THEN f.nod ELSE dflt
Whole(f, L, dflt) ==
  [FromArray(FALSE, f.rows, f.cols, L, f.nod, f.geo, [i \in 1..Len(f.v) |-> <<f.v[i]>>], "", f.ot) EXCEPT !.dflt = DefaultOf(f, dflt)]
ReadOne(f, L, calc, m, mreg, ext, dflt) ==
  LET w == [Whole(f, L, dflt) EXCEPT !.L = 1]
      x == IF m.live THEN (IF ~m.has \/ ~(m.haspos \/ CanCompact(m)) THEN [ok |-> FALSE]
                           ELSE Masked(w, Compact(m), mreg, calc, ext))
           ELSE IF calc THEN (IF CanCompact(w) THEN [ok |-> TRUE, r |-> Compact(w)] ELSE [ok |-> FALSE])
           ELSE [ok |-> TRUE, r |-> w]
  IN IF x.ok THEN [ok |-> TRUE, r |-> [x.r EXCEPT !.L = L, !.subs = [j \in 1..Len(x.r.subs) |-> [x.r.subs[j] EXCEPT !.lyrs = L]]]]
     ELSE x
\* further layers are looked up at the cells' centres; their no-data becomes that of the first
ReadLayers(fs, calc, m, mreg, ext, dflt) ==
  LET one == ReadOne(fs[1], Len(fs), calc, m, mreg, ext, dflt)
      r == one.r
      Val(i, k) == LET p == CellNo(r, i)
                       c == Centre(r, RowOf(r, p), ColOf(r, p))
                       d == CellAt(fs[k], c[1], c[2])
                   IN IF d = Outside \/ (~r.haspos /\ r.v[i][1] = r.nod) THEN r.nod
                      ELSE LET q == fs[k].v[Flat(fs[k], d[1], d[2]) + 1] IN IF q = fs[k].nod THEN r.nod ELSE q
  IN IF ~one.ok THEN one
     ELSE [ok |-> TRUE, r |-> [r EXCEPT !.two = TRUE, !.v = [i \in 1..N(r) |-> [k \in 1..Len(fs) |-> IF k = 1 THEN r.v[i][1] ELSE Val(i, k)]]]]
ReadFiles(fs, calc, m, mreg, ext, dflt) ==
  IF Len(fs) = 1 THEN ReadOne(fs[1], 1, calc, m, mreg, ext, dflt) ELSE ReadLayers(fs, calc, m, mreg, ext, dflt)
OnMask(m, mreg, two, L, v, srs, ot) ==
  [FromArray(two, m.rows, m.cols, L, m.nod, m.geo, v, srs, ot) EXCEPT
     !.haspos = TRUE, !.calc = TRUE, !.pos = m.pos, !.ext = TRUE, !.mask = mreg, !.dflt = m.dflt]
\* ------------------------------------------------------------- changes
SetAt(r, row, col, k, q) ==
  LET i == Index(r, row, col)
  IN IF i < 0 \/ k < 1 \/ k > r.L THEN r ELSE ChangeValues([r EXCEPT !.v[i + 1][k] = q])
ReplaceNod(r, q) == ChangeValues([r EXCEPT !.v = [i \in 1..N(r) |-> [k \in 1..r.L |-> IF r.v[i][k] = r.nod THEN q ELSE r.v[i][k]]],
                                           !.nod = q, !.dflt = q])
\* map: sequence of <<from (whole number), to>>
Lookup(map, g, other) == LET S == {i \in 1..Len(map): map[i][1] = g} IN IF S = {} THEN other ELSE map[CHOOSE i \in S: TRUE][2]
Recls(r, map) == ChangeValues([r EXCEPT !.v = [i \in 1..N(r) |-> [k \in 1..r.L |->
                   IF r.v[i][k] = r.nod THEN r.nod ELSE Lookup(map, Trunc(r.v[i][k]), r.nod)]]])
\* ------------------------------------------------------------- statistics
SumOf(s) == FoldFunction(LAMBDA x, y: x + y, 0, s)
Stat(r, k) ==
  LET idx == Pick(N(r), LAMBDA i: r.v[i][k] # r.nod)
      n == Len(idx)
      x == [i \in 1..n |-> r.v[idx[i]][k]]
      sum == SumOf(x)   mn == Min2(ToSet(x))   mx == Max2(ToSet(x))
  IN IF n = 0 THEN <<0>> ELSE <<n, sum, mn, mx, mx - mn, n * SumOf([i \in 1..n |-> x[i] * x[i]]) - sum * sum>>
\* ------------------------------------------------------------- subsets
NewSubset(id) == [id |-> id, n |-> 0, box |-> <<-1, -1, -1, -1>>, glob |-> <<>>, loc |-> <<>>, use |-> TRUE, data |-> <<>>, lyrs |-> -1]
Group(r, i, map) == LET g == Trunc(r.v[i][1]) IN Lookup(map, g, g)
Build(r, map) ==   \* r compact, without subsets
  LET val == Pick(N(r), LAMBDA i: Valid1(r, i))
      ids == SetToSortSeq({Group(r, i, map): i \in ToSet(val)}, LAMBDA a, b: a < b)
  IN [r EXCEPT !.subs = [j \in 1..Len(ids) |->
        LET mine == SelectSeq(val, LAMBDA i: Group(r, i, map) = ids[j])
        IN SubsetTo(r, NewSubset(ids[j]), [i \in 1..Len(mine) |-> r.pos[mine[i]]])]]
\* ------------------------------------------------------------- writing
(* What the files of an output hold: a sequence of [name, layers, head], where head is the grid
   the file describes and layers a sequence of one value per cell. *)
IntType(t) == t \in {"INT8", "UINT8", "INT16", "UINT16", "INT32", "UINT32", "INT64", "UINT64"}
Full(r, k) == [p \in 1..(r.rows * r.cols) |-> At(r, RowOf(r, p - 1), ColOf(r, p - 1))[k]]
GridHead(r) == [rows |-> r.rows, cols |-> r.cols, geo |-> r.geo, nod |-> r.nod]
SubHead(r, s) == [rows |-> s.box[2] - s.box[1] + 1, cols |-> s.box[4] - s.box[3] + 1, nod |-> r.nod,
                  geo |-> <<r.geo[1] + s.box[3] * r.geo[3], r.geo[2] + (r.rows - 1 - s.box[2]) * r.geo[3], r.geo[3]>>]
\* a number written with six significant digits
Near(a, u) == LET k == a \div u m == a % u IN IF 2 * m > u \/ (2 * m = u /\ k % 2 = 1) THEN (k + 1) * u ELSE k * u
Six(q) == LET a == IF q < 0 THEN -q ELSE q
              b == IF a < 400000 THEN a ELSE IF a < 4000000 THEN Near(a, 4) ELSE IF a < 40000000 THEN Near(a, 40) ELSE Near(a, 400)
          IN IF q < 0 THEN -b ELSE b
\* one file, of the type asked for; a type that would turn a cell with data into no-data is refused
Typed(h, v, tif, ot, own) ==
  LET conv == tif /\ IntType(ot) /\ ot # own
      nod == IF conv /\ h.nod % 4 # 0 THEN HUGEV ELSE h.nod
      W(q) == IF ~tif /\ own \in {"FLOAT", "DOUBLE"} /\ q # h.nod THEN Six(q) ELSE IF ~conv THEN q ELSE IF q = h.nod THEN nod ELSE Trunc(q) * 4
  IN [ok |-> ~conv \/ \A i \in 1..Len(v): v[i] = h.nod \/ Trunc(v[i]) * 4 # nod,
      c |-> [ok |-> TRUE, rows |-> h.rows, cols |-> h.cols, geo |-> h.geo, nod |-> nod, v |-> [i \in 1..Len(v) |-> W(v[i])]]]
FileName(core, k, sfx) == IF k < 0 THEN core \o "." \o sfx ELSE core \o "_" \o ToString(k) \o "." \o sfx
Written(core, sfx, first, h, ls, one, ot, own) ==
  [k \in 1..Len(ls) |-> [name |-> FileName(core, IF one THEN -1 ELSE k - 1 + first, sfx), x |-> Typed(h, ls[k], sfx = "tif", ot, own)]]
OutWhole(r, core, sfx, own) ==
  [ok |-> TRUE, may |-> FALSE, f |-> Written(core, sfx, IF sfx = "tif" THEN 1 ELSE 0, GridHead(r), [k \in 1..r.L |-> Full(r, k)], ~r.two, r.ot, own)]
RecLyrs(rec) == IF rec = <<>> THEN -1 ELSE Len(rec[1].v)
RecOk(rec) == \A i \in 1..Len(rec): Len(rec[i].v) = RecLyrs(rec)
RecVal(rec, key, k, other) == LET S == {i \in 1..Len(rec): rec[i].k = key}
                              IN IF S = {} THEN other ELSE LET e == rec[CHOOSE i \in S: TRUE].v IN IF k <= Len(e) THEN e[k] ELSE other
OutDflt(r, dflt) == IF dflt = NODATA THEN r.dflt ELSE dflt
\* value of the i-th cell of subset s in layer k of an output
SubVal(r, s, i, k, org, rec, dflt) ==
  LET own == r.v[s.glob[i] + 1]
      key == IF org THEN Trunc(own[IF k <= r.L THEN k ELSE 1]) ELSE s.id
  IN IF rec # <<>> THEN RecVal(rec, key, k, dflt) ELSE IF org THEN own[k] ELSE s.data[i][k]
SubLyrs(r, s, org, rec) == IF org THEN (IF RecLyrs(rec) > 0 THEN RecLyrs(rec) ELSE r.L)
                           ELSE IF s.lyrs < 0 /\ RecLyrs(rec) > 0 THEN RecLyrs(rec) ELSE s.lyrs
\* what the subsets say about each cell of the raster: [can, may (refusing is allowed), L, Val(p, k)]
Combined(r, org, rec, dflt0) ==
  LET use == {j \in 1..Len(r.subs): (r.subs[j]).use}
      S(j) == r.subs[j]
      lyrset == {S(j).lyrs: j \in use}
      mixed == Cardinality(lyrset) > 1       \* some with data and some without: may be refused
      can == /\ r.subs # <<>> /\ RecOk(rec) /\ Cardinality(lyrset \ {-1}) <= 1
             /\ \A j \in use: S(j).data # <<>> \/ org \/ rec # <<>>
      ls == IF lyrset \ {-1} = {} THEN -1 ELSE CHOOSE k \in lyrset \ {-1}: TRUE
      L == IF org THEN (IF RecLyrs(rec) > 0 THEN RecLyrs(rec) ELSE r.L)
           ELSE IF ls < 0 /\ RecLyrs(rec) > 0 THEN RecLyrs(rec) ELSE ls
      dflt == OutDflt(r, dflt0)
      at == [p \in UNION {ToSet(SubCells(r, S(j))): j \in 1..Len(r.subs)} |-> CHOOSE j \in 1..Len(r.subs): p \in ToSet(SubCells(r, S(j)))]
      Val(p, k) == IF p \notin DOMAIN at THEN r.nod
                   ELSE LET s == S(at[p]) IN
                        IF ~s.use /\ dflt = r.nod THEN r.nod
                        ELSE IF ~s.use /\ rec = <<>> THEN dflt
                        ELSE SubVal(r, s, Find(SubCells(r, s), p), k, org, rec, dflt)
  IN IF ~can \/ L < 1 THEN [can |-> FALSE, may |-> FALSE, L |-> 0, v |-> <<>>]
     ELSE [can |-> TRUE, may |-> mixed, L |-> L, v |-> [p \in 1..(r.rows * r.cols) |-> [k \in 1..L |-> Val(p - 1, k)]]]
OutCombined(r, core, sfx, org, rec, dflt0, own) ==
  LET c == Combined(r, org, rec, dflt0)
  IN IF ~c.can THEN [ok |-> FALSE, f |-> <<>>, may |-> FALSE]
     ELSE [ok |-> TRUE, may |-> c.may, f |-> Written("0_" \o core, sfx, 1, GridHead(r), [k \in 1..c.L |-> [p \in 1..(r.rows * r.cols) |-> c.v[p][k]]], c.L = 1, r.ot, own)]
\* the subsets that can be written alone
Able(r, org, rec) == SelectSeq(r.subs, LAMBDA s: s.use /\ RecOk(rec) /\ SubLyrs(r, s, org, rec) >= 1 /\ (org \/ rec # <<>> \/ s.data # <<>>))
OutEach(r, core, sfx, org, rec, dflt0, own) ==
  LET dflt == OutDflt(r, dflt0)
      able == Able(r, org, rec)
      One(s) == LET L == SubLyrs(r, s, org, rec)
                    h == SubHead(r, s)
                    v == [k \in 1..L |-> [p \in 1..(h.rows * h.cols) |->
                            LET i == Find(s.loc, p - 1) IN IF i = 0 THEN r.nod ELSE SubVal(r, s, i, k, org, rec, dflt)]]
                IN Written(ToString(s.id) \o "_" \o core, sfx, 1, h, v, L = 1, r.ot, own)
  IN [ok |-> r.subs # <<>>, may |-> FALSE, f |-> IF r.subs = <<>> THEN <<>> ELSE FlattenSeq([j \in 1..Len(able) |-> One(able[j])])]
SubNo(r, id) == Find([j \in 1..Len(r.subs) |-> r.subs[j].id], id)
=============================================================================
