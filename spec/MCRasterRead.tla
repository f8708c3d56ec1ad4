--------------------------- MODULE MCRasterRead ---------------------------
(* Reading through a mask, exhaustively for small grids: every source of up to SR x SC cells, every mask of
   MR x MC cells, every relative position and cell size listed, with and without compact storage, mask extent
   and default value.  The laws below are said of ground positions only; they do not mention how Raster.tla
   computes the result. *)
EXTENDS Raster
CONSTANTS SR, SC, MR, MC, Layers, Wide
VARIABLES f, f2, m, calc, ext, dflt, x, step
vars == <<f, f2, m, calc, ext, dflt, x, step>>
Q == 4
Geos == IF Wide THEN {<<X, Y, c>>: X \in {-12, -8, -3, 0, 4, 8}, Y \in {-8, -4, 0, 5, 8}, c \in {4, 8, 16}}
        ELSE {<<X, Y, c>>: X \in {-8, 0, 3}, Y \in {-4, 0, 8}, c \in {8, 12}}
SrcVals == {NODATA, Q, 2 * Q}
NoMask == [live |-> FALSE]
MaskAt(v) == FromArray(FALSE, MR, MC, 1, NODATA, <<0, 0, 8>>, [i \in 1..(MR * MC) |-> <<v[i]>>], "", "Unknown")
Files(rs, cs) == {[rows |-> rs, cols |-> cs, geo |-> g, nod |-> NODATA, v |-> v, ot |-> "Unknown"]: g \in Geos, v \in [1..(rs * cs) -> SrcVals]}
\* a second layer: its own place and its own no-data
Second == {[rows |-> 1, cols |-> 2, geo |-> g, nod |-> Q, v |-> v, ot |-> "Unknown"]: g \in {<<0, 0, 8>>, <<4, 4, 12>>}, v \in [1..2 -> {Q, 3 * Q}]}
Sources == IF Layers = 1 THEN {<<a>>: a \in Files(SR, SC)} ELSE {<<a, b>>: a \in Files(SR, SC), b \in Second}
\* masks carry subsets: the valid cells grouped by value
Masks == {NoMask} \cup {MaskAt(v): v \in [1..(MR * MC) -> {NODATA, Q, 2 * Q}]}
Init == /\ f \in Sources /\ m \in Masks /\ calc \in BOOLEAN /\ ext \in (IF m.live THEN BOOLEAN ELSE {FALSE}) /\ dflt \in {NODATA, 5 * Q}
        /\ f2 = 0 /\ step = "ask" /\ x = [ok |-> FALSE]
WithSubs(r) == IF r.live /\ CanCompact(r) THEN Build(Compact(r), <<>>) ELSE r
Read == step = "ask" /\ step' = "read" /\ x' = ReadFiles(f, calc, WithSubs(m), 0, ext, dflt) /\ UNCHANGED <<f, f2, m, calc, ext, dflt>>
Next == Read \/ (step = "read" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------- the ground, in eighths
Val(s, p) == LET c == CellAt(s, p[1], p[2]) IN IF c = Outside THEN NODATA ELSE s.v[Flat(s, c[1], c[2]) + 1]
Points(g) == {Centre(g, c[1], c[2]): c \in ToSet(Cells(g))}
MaskVal(p) == LET c == CellAt(m, p[1], p[2]) IN m.v[Flat(m, c[1], c[2]) + 1][1]
Valid(p) == MaskVal(p) # NODATA
In(p) == CellAt(f[1], p[1], p[2]) # Outside
S == f[1]
Hits == {p \in Points(m): Valid(p) /\ In(p) /\ Val(S, p) # S.nod}
Ins == {p \in Points(m): Valid(p) /\ In(p)}
Want(p) == IF Val(S, p) # S.nod THEN Val(S, p) ELSE IF dflt # NODATA THEN dflt ELSE S.nod
R == x.r
Looked(p) == LET c == CellAt(R, p[1], p[2]) IN IF c = Outside THEN NoData(R) ELSE At(R, c[1], c[2])
Rd == step = "read"
Rm == Rd /\ m.live
\* the laws
Refused == Rm => (x.ok <=> (Hits # {} \/ (ext /\ dflt # NODATA /\ Ins # {})))
RefusedPlain == (Rd /\ ~m.live) => (x.ok <=> (~calc \/ \E i \in 1..Len(S.v): S.v[i] # S.nod))
Plain == (Rd /\ ~m.live /\ x.ok) => /\ R.rows = S.rows /\ R.cols = S.cols /\ R.geo = S.geo
                                    /\ \A p \in Points(S): Looked(p)[1] = Val(S, p)
\* every valid cell of the mask with data has it in the result; no other cell has any
Selects == (Rm /\ x.ok) => /\ \A p \in Hits: Looked(p)[1] = Val(S, p)
                           /\ \A p \in Points(R): Looked(p)[1] = (IF p \in Ins THEN Want(p) ELSE S.nod)
                           /\ (ext => \A p \in Ins: Looked(p)[1] = Want(p))
\* the result lies on the mask's grid, cell upon cell
Grounded == (Rm /\ x.ok) => R.geo[3] = m.geo[3] /\ Points(R) \subseteq Points(m)
\* and is no larger than asked
Box(P) == <<Min2({p[1]: p \in P}), Max2({p[1]: p \in P}), Min2({p[2]: p \in P}), Max2({p[2]: p \in P})>>
Spans == Box(Hits) = Box(Points(m))
Small == (Rm /\ x.ok) => IF ext \/ Spans THEN Points(R) = Points(m) ELSE Box(Points(R)) = Box(Hits)
\* compact storage holds the cells with data and no others, in order
Stored == (Rd /\ x.ok) => IF ~R.haspos THEN N(R) = R.rows * R.cols
                          ELSE /\ \A i \in 1..(N(R) - 1): R.pos[i] < R.pos[i + 1]
                               /\ \A i \in 1..N(R): R.pos[i] \in 0..(R.rows * R.cols - 1)
                               /\ (calc => \A i \in 1..N(R): Valid1(R, i))
                               /\ (calc => R.haspos)
\* asking later for compact storage gives the same raster, cells without data in the first layer aside
View(r) == <<r.rows, r.cols, r.geo, [i \in 1..(r.rows * r.cols) |-> LET a == At(r, (i - 1) \div r.cols, (i - 1) % r.cols) IN IF a[1] = r.nod THEN NoData(r) ELSE a]>>
Later == LET y == ReadFiles(f, ~calc, WithSubs(m), 0, ext, dflt)
         IN Rd => (x.ok /\ y.ok => View(x.r) = View(y.r)) /\ (m.live => x.ok = y.ok)
               /\ ((~calc /\ x.ok /\ CanCompact(x.r)) => View(Compact(x.r)) = View(x.r) /\ (y.ok /\ ~x.r.haspos => Compact(x.r).pos = y.r.pos))
\* layers: the further ones are what lies under the cell's centre, the first decides which cells there are
LayerVal(p) == LET v == Val(f[2], p) IN IF CellAt(f[2], p[1], p[2]) = Outside \/ v = f[2].nod THEN S.nod ELSE v
Aligned == (Rd /\ x.ok /\ Layers = 2) => /\ \A p \in Points(R): Looked(p)[1] # R.nod => Looked(p)[2] = LayerVal(p)
                                         /\ \A p \in Points(R): (Looked(p)[1] = R.nod /\ calc) => Looked(p)[2] = R.nod
\* subsets of the mask come along: each holds the cells of the result that lie in the mask's subset and have data
SubPts(r, s) == {Centre(r, RowOf(r, p), ColOf(r, p)): p \in ToSet(SubCells(r, s))}
Follows == (Rm /\ x.ok) =>
  /\ \A j \in 1..Len(R.subs): \A p \in SubPts(R, R.subs[j]): MaskVal(p) = 4 * R.subs[j].id
  /\ \A p \in Points(R): Looked(p)[1] # R.nod => \E j \in 1..Len(R.subs): p \in SubPts(R, R.subs[j])
  /\ (R.mask < 0 => \A j \in 1..Len(R.subs): \A p \in SubPts(R, R.subs[j]): Looked(p)[1] # R.nod)
===========================================================================
