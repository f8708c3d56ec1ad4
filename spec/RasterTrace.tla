---------------------------- MODULE RasterTrace ----------------------------
(* Recorded runs of the real raster class as behaviours: 8 registers (0..3 integer rasters that
   also serve as masks, 4..7 rasters of the type under test) and the files written so far.
   After every operation the projection of each changed register must be the one given here. *)
EXTENDS TraceBase, Raster
VARIABLES reg, files
vars == <<l, reg, files>>
Init == l = 1 /\ reg = [i \in 0..7 |-> None] /\ files = <<>>   \* files: sequence of [f, c]
\* ------------------------------------------------------------- projections
ViewSub(s) == [id |-> s.id, n |-> s.n, box |-> s.box, glob |-> s.glob, loc |-> s.loc, lpok |-> TRUE, use |-> s.use, data |-> s.data]
View(r) ==
  IF ~r.live THEN [live |-> FALSE]
  ELSE IF ~r.has THEN [live |-> TRUE, init |-> TRUE, has |-> FALSE, two |-> r.two]
  ELSE [live |-> TRUE, init |-> TRUE, has |-> TRUE, two |-> r.two, rows |-> r.rows, cols |-> r.cols, geo |-> r.geo,
        lyrs |-> r.L, n |-> N(r), len |-> N(r) * r.L, nod |-> r.nod, dflt |-> r.dflt, hdr |-> <<N(r), r.L, r.nod>>, calc |-> r.calc,
        ext |-> r.ext, mask |-> r.mask >= 0, srs |-> r.srs, ot |-> r.ot, pos |-> [has |-> r.haspos, i |-> r.pos, ok |-> TRUE],
        vals |-> r.v, subs |-> [j \in 1..Len(r.subs) |-> ViewSub(r.subs[j])]]
CheckFields(i, want, got) == \A f \in DOMAIN want: f \in DOMAIN got /\ Chk(<<"register", i, f>>, want[f], got[f])
CheckFile(i, want, got) == \A f \in DOMAIN want: f \in DOMAIN got /\ Chk(<<"file", i, f>>, want[f], got[f])
\* E.st: the registers whose projection changed, as [i |-> register, p |-> projection]
Registers(new) ==
  \A i \in 0..7:
    LET J == {j \in 1..Len(E.st): E.st[j].i = i}
    IN IF J = {} THEN IF new[i] = reg[i] THEN TRUE ELSE Chk(<<"register", i, "unchanged">>, View(new[i]), View(reg[i]))
       ELSE CheckFields(i, View(new[i]), E.st[CHOOSE j \in J: TRUE].p)
Step(new) == Registers(new) /\ reg' = new
R == reg[E.r]
Put(r) == [reg EXCEPT ![E.r] = r]
KeepFiles == UNCHANGED files
MaskReg(i) == IF i < 0 THEN None ELSE reg[i]
\* masks are brought to compact form when used
UseMask(new, i) == IF i < 0 \/ ~new[i].live \/ ~new[i].has \/ ~(new[i].haspos \/ CanCompact(new[i])) THEN new
                   ELSE [new EXCEPT ![i] = Compact(new[i])]
\* ------------------------------------------------------------- operations
Reset == Is("reset") /\ Step([i \in 0..7 |-> None]) /\ files' = <<>>
\* every object given back: nothing may be left of them
Drop == Is("drop") /\ Step([i \in 0..7 |-> None]) /\ KeepFiles /\ Chk("data sets and handles left open", <<0, 0>>, <<E.open, E.live>>) /\ Ok("no memory lost", ~E.lost)
Skip == \/ Is("nop") /\ Step(reg) /\ KeepFiles
        \/ Is("skip") /\ ~R.live /\ Step(reg) /\ KeepFiles
WFile == /\ Is("wfile") /\ Step(reg)
         /\ files' = Append(SelectSeq(files, LAMBDA x: x.f # E.f),
                            [f |-> E.f, c |-> [rows |-> E.rows, cols |-> E.cols, geo |-> E.geo, nod |-> E.nod, v |-> E.v, ot |-> E.ot]])
AscFile == /\ Is("ascfile") /\ Step(reg)
           /\ LET p == AscParse(E.lines) rest == SelectSeq(files, LAMBDA x: x.f # E.f)
              IN files' = IF p.ok THEN Append(rest, [f |-> E.f, c |-> p.c]) ELSE rest
BadFile == Is("badfile") /\ Step(reg) /\ files' = SelectSeq(files, LAMBDA x: x.f # E.f)
Readable(f) == \E j \in 1..Len(files): files[j].f = f
File(f) == (files[CHOOSE j \in 1..Len(files): files[j].f = f]).c
Arr == /\ Is("arr") /\ KeepFiles
       /\ Step(Put(FromArray(E.two = 1, E.rows, E.cols, E.lyrs, E.nod, E.geo,
                   [i \in 1..(E.rows * E.cols) |-> SubSeq(E.v, (i - 1) * E.lyrs + 1, i * E.lyrs)],
                   IF E.mode > 0 THEN "SRSX" ELSE "", IF E.mode = 2 THEN "DOUBLE" ELSE IF E.mode >= 10 THEN E.ot ELSE "Unknown")))
Read == /\ Is("read") /\ KeepFiles
        /\ LET good == \A j \in 1..Len(E.files): Readable(E.files[j])
               fs == [j \in 1..Len(E.files) |-> File(E.files[j])]
               x == IF good THEN ReadFiles(fs, E.calc, MaskReg(E.m), E.m, E.ext /\ E.m >= 0, E.dflt) ELSE [ok |-> FALSE]
               masks == IF x.ok THEN {UseMask(reg, E.m)} ELSE {reg, UseMask(reg, E.m)}   \* refused before or after the mask is used
           IN /\ Chk("read succeeds", x.ok, E.ok)
              /\ (~E.ok =>   \* nothing to read: the object keeps what it holds; otherwise it is left without data
                    LET kept == E.how = 5 /\ R.live /\ (\E j \in 1..Len(E.files): ~E.exist[j])
                    IN IF kept THEN CheckFields(E.r, View(R), E.fail)
                       ELSE \/ E.refused /\ ~E.fail.has
                            \/ E.how = 5 /\ E.dir /\ R.live /\ CheckFields(E.r, View(R), E.fail)
                            \/ Ok("refused raster stays refused", FALSE))
              /\ \E b \in masks: Step([b EXCEPT ![E.r] = IF x.ok THEN x.r ELSE None])
MaskVals == /\ Is("maskvals") /\ KeepFiles
            /\ LET m == MaskReg(E.m)
                   can == m.live /\ m.has /\ (m.haspos \/ CanCompact(m))
                   mc == Compact(m)
                   good == can /\ N(mc) = E.len
               IN /\ Chk("accepted", good, E.ok)
                  /\ Step([UseMask(reg, E.m) EXCEPT ![E.r] =
                       IF good THEN OnMask(mc, E.m, E.two = 1, IF E.two = 1 THEN E.lyrs ELSE 1,
                                           LET L == IF E.two = 1 THEN E.lyrs ELSE 1 IN [i \in 1..E.len |-> SubSeq(E.v, (i - 1) * L + 1, i * L)],
                                           IF E.mode = 2 THEN "SRSX" ELSE m.srs, IF E.mode = 2 THEN "DOUBLE" ELSE "Unknown")
                       ELSE None])
Empty == Is("empty") /\ KeepFiles /\ Step(Put(Blank(E.two)))
Delete == Is("del") /\ KeepFiles /\ Step(Put(None))
CopyOp == (Is("copy") \/ Is("copyctor")) /\ KeepFiles /\ Step(Put(reg[E.from]))
SetV == Is("setv") /\ KeepFiles /\ Step(Put(IF R.has THEN SetAt(R, E.row, E.col, E.lyr, E.v) ELSE R))
CalcPos == /\ Is("calcpos") /\ KeepFiles
           /\ LET ok == R.has /\ ~R.haspos /\ CanCompact(R)
              IN Chk("switched", ok, E.ok) /\ Step(Put(IF ok THEN Compact(R) ELSE R))
UseExt == /\ Is("useext") /\ KeepFiles
          /\ LET ok == R.has /\ R.mask >= 0 /\ ~R.ext
             IN Chk("switched", ok, E.ok) /\ Step(Put(IF ok THEN [R EXCEPT !.ext = TRUE] ELSE R))
SetDflt == Is("setdflt") /\ KeepFiles /\ Step(Put([R EXCEPT !.dflt = E.v]))
ReplNod == Is("replnod") /\ KeepFiles /\ Step(Put(ReplaceNod(R, E.v)))
ReclsOp == Is("recls") /\ KeepFiles /\ Step(Put(Recls(R, E.map)))
StatsOp == /\ (Is("stats") \/ Is("updstats")) /\ KeepFiles
           /\ IF ~R.has THEN Step(reg)
              ELSE LET fresh == E.op = "updstats" \/ ~R.stale
                   IN /\ (fresh => Chk("statistics", [k \in 1..R.L |-> Stat(R, k)], E.s))
                      /\ Ok("per-layer arrays agree", E.arrok)
                      /\ Ok("calculated", E.done)
                      /\ Step(Put([R EXCEPT !.cached = TRUE, !.stale = IF E.op = "updstats" THEN FALSE ELSE R.stale]))
Probe == /\ Is("probe") /\ KeepFiles /\ Step(reg)
         /\ IF ~R.has THEN TRUE ELSE
            LET c == Cells(R)   A == [i \in 1..Len(c) |-> At(R, c[i][1], c[i][2])]
            IN /\ Chk("values by row and column", A, E.grid)
               /\ Chk("no-data by row and column", [i \in 1..Len(c) |-> [k \in 1..R.L |-> IF A[i][k] = R.nod THEN 1 ELSE 0]], E.nd)
               /\ Chk("index by row and column", [i \in 1..Len(c) |-> Index(R, c[i][1], c[i][2])], E.idx)
               /\ Chk("centres", [i \in 1..Len(c) |-> Centre(R, c[i][1], c[i][2])], E.cen)
               /\ Chk("values by index", [i \in 1..(N(R) + 2) |-> [k \in 1..(R.L + 2) |->
                        IF i = 1 \/ i = N(R) + 2 \/ k = 1 \/ k = R.L + 2 THEN R.nod ELSE R.v[i - 1][k - 1]]], E.byidx)
               /\ Chk("index outside", [i \in 1..8 |-> -2], E.oob)
               /\ Ok("layer arrays by row and column", E.arrok) /\ Ok("layer arrays by index", E.byarr)
               /\ Ok("cells found again by their centres", E.lookup) /\ Ok("no-data outside", E.oobnod) /\ Ok("whole data", E.get)
XY == /\ Is("xy") /\ KeepFiles /\ Step(reg)
      /\ (R.has => LET c == CellAt(R, E.x, E.y) i == IndexXY(R, E.x, E.y)
                   IN Chk("cell of a point", <<c, i, i>>, <<<<E.row, E.col>>, E.p, E.pf>>))
GetPos == /\ Is("getpos") /\ KeepFiles
          /\ LET can == R.has /\ (R.haspos \/ CanCompact(R))
             IN Chk("positions", can, E.ok) /\ Step(Put(IF can THEN Compact(R) ELSE R))
BuildOp == /\ (Is("build") \/ Is("rebuild")) /\ KeepFiles
           /\ LET r0 == IF E.op = "rebuild" /\ R.has THEN [R EXCEPT !.subs = <<>>] ELSE R
                  can == R.has /\ (R.haspos \/ CanCompact(R))
                  r1 == Compact(r0)
              IN /\ Chk("built", can, E.ok)
                 /\ Step(Put(IF ~can THEN r0 ELSE IF r1.subs # <<>> THEN r1 ELSE Build(r1, E.map)))
RelSub == Is("relsub") /\ KeepFiles /\ Chk("released", TRUE, E.ok) /\ Step(Put(IF R.has THEN [R EXCEPT !.subs = <<>>] ELSE R))
Rows(v, L) == [i \in 1..(Len(v) \div L) |-> SubSeq(v, (i - 1) * L + 1, i * L)]
SubData == /\ Is("subdata") /\ KeepFiles
           /\ LET j == IF R.has THEN SubNo(R, E.id) ELSE 0
                  ok == j > 0 /\ (R.subs[j]).n = E.n
              IN /\ Chk("found", j > 0, E.found) /\ (j > 0 => Chk("accepted", ok, E.ok))
                 /\ Step(Put(IF ok THEN [R EXCEPT !.subs[j].data = Rows(E.v, E.lyrs), !.subs[j].lyrs = E.lyrs, !.subs[j].use = TRUE] ELSE R))
SubUse == /\ Is("subuse") /\ KeepFiles
          /\ LET j == IF R.has THEN SubNo(R, E.id) ELSE 0
             IN Step(Put(IF j > 0 THEN [R EXCEPT !.subs[j].use = E.u] ELSE R))
\* ------------------------------------------------------------- output
AddFiles(w) == files' = SelectSeq(files, LAMBDA x: \A j \in 1..Len(w): w[j].name # x.f)
                        \o [j \in 1..Len(w) |-> [f |-> w[j].name, c |-> [rows |-> w[j].x.c.rows, cols |-> w[j].x.c.cols, geo |-> w[j].x.c.geo,
                              nod |-> w[j].x.c.nod, v |-> w[j].x.c.v, ot |-> IF E.sfx # "tif" THEN "Unknown" ELSE IF R.ot = "Unknown" THEN E.vt ELSE R.ot]]]
Out == /\ (Is("out") \/ Is("outsub"))
       /\ Step(reg)
       /\ LET o == IF ~R.has THEN [ok |-> FALSE, may |-> FALSE, f |-> <<>>]
                   ELSE IF E.op = "out" /\ E.org THEN OutWhole(R, E.core, E.sfx, E.vt)
                   ELSE IF E.comb THEN OutCombined(R, E.core, E.sfx, E.org, E.recls, E.dflt, E.vt)
                   ELSE OutEach(R, E.core, E.sfx, E.org, E.recls, E.dflt, E.vt)
              ok == o.ok /\ (\A j \in 1..Len(o.f): o.f[j].x.ok) /\ (o.may => E.ok)
              got == [j \in 1..Len(E.files) |-> E.files[j].name]
          IN /\ Chk("written", ok, E.ok)
             /\ IF ~ok THEN KeepFiles
                ELSE /\ Chk("names", {o.f[j].name: j \in 1..Len(o.f)}, ToSet(got))
                     /\ \A j \in 1..Len(o.f): CheckFile(o.f[j].name, o.f[j].x.c, E.files[Find(got, o.f[j].name)].c)
                     /\ AddFiles(o.f)
SubOut == /\ Is("subout") /\ KeepFiles /\ Step(reg)
          /\ LET j == IF R.has THEN SubNo(R, E.id) ELSE 0
             IN Chk("subset layers", IF j = 0 \/ R.subs[j].data = <<>> THEN <<>>
                      ELSE LET s == R.subs[j] w == (s.box[2] - s.box[1] + 1) * (s.box[4] - s.box[3] + 1)
                           IN [k \in 1..s.lyrs |-> [p \in 1..w |-> LET i == Find(s.loc, p - 1) IN IF i = 0 THEN E.nod ELSE s.data[i][k]]], E.v)
Next == Drop \/ Reset \/ AscFile \/ Out \/ SubOut \/ Skip \/ WFile \/ BadFile \/ Arr \/ Read \/ MaskVals \/ Empty \/ Delete \/ CopyOp \/ SetV \/ CalcPos
        \/ UseExt \/ SetDflt \/ ReplNod \/ ReclsOp \/ StatsOp \/ Probe \/ XY \/ GetPos \/ BuildOp \/ RelSub \/ SubData \/ SubUse
Spec == Init /\ [][Next]_vars
=============================================================================
