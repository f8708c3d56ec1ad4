---------------------------- MODULE MCRasterOps ----------------------------
(* Changes to one raster, exhaustively for small grids: any sequence of up to MaxSteps operations, from any
   content.  After each, the laws of the interface hold between the raster before (b) and after (r).
   With Emit, run as a simulation over larger grids, each behaviour is printed as a script that the check
   then runs against the real classes. *)
EXTENDS Raster
CONSTANTS MaxSteps, Emit
VARIABLES r, b, op, n, script
vars == <<r, b, op, n, script>>
seen == <<r, b, op, n>>
Q == 4
ND == -36
Vals == {ND, Q, 2 * Q}
Plain(rows, cols, L, v) == FromArray(L > 1, rows, cols, L, ND, <<0, 0, 8>>, v, "", "Unknown")
\* ------------------------------------------------------------- scripts
T(x) == ToString(x)
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE " " \o T(Head(s)) \o Join(Tail(s))
Say(s) == script' = IF Emit THEN script \o ";" \o s ELSE script
SayAll(ss) == script' = IF Emit THEN script \o FoldLeft(LAMBDA x, y: x \o ";" \o y, "", ss) ELSE script
\* ------------------------------------------------------------- beginnings
Small == {Plain(1, 3, 1, [i \in 1..3 |-> <<v[i]>>]): v \in [1..3 -> Vals]}
         \cup {Plain(2, 1, 2, [i \in 1..2 |-> v[i]]): v \in [1..2 -> {<<ND, Q>>, <<Q, ND>>, <<Q, 2 * Q>>, <<2 * Q, Q>>}]}
Big == {LET c == <<RandomElement(1..4), RandomElement(1..4), RandomElement({1, 1, 2, 3})>>
        IN [Plain(c[1], c[2], c[3], [i \in 1..(c[1] * c[2]) |-> [k \in 1..c[3] |-> RandomElement({ND, Q, 2 * Q, 3 * Q, 4 * Q + 1})]]) EXCEPT !.two = c[3] > 1]: x \in 1..300}
ArrLine(a) == "reset;arr 4 " \o (IF a.two THEN "1" ELSE "0") \o Join(<<a.rows, a.cols, a.L, a.nod>>) \o Join(a.geo) \o " 0" \o Join(FlattenSeq(a.v))
Init == /\ r \in (IF Emit THEN Big ELSE Small) /\ b = r /\ op = <<"new">> /\ n = 0
        /\ script = (IF Emit THEN ArrLine(r) ELSE "")
\* ------------------------------------------------------------- operations
Do(o, new, line) == n < MaxSteps /\ n' = n + 1 /\ op' = o /\ b' = r /\ r' = new /\ SayAll(<<line, "probe 4">>)
Maps == {<<>>, <<<<1, 2 * Q>>>>, <<<<1, ND>>, <<2, Q>>>>, <<<<1, 2 * Q>>, <<2, 2 * Q>>, <<3, Q>>>>}
Groups == {<<>>, <<<<1, 2>>>>, <<<<1, 3>>, <<2, 3>>>>}
MapWords(m) == T(Len(m)) \o FoldLeft(LAMBDA x, y: x \o Join(y), "", m)
Can(x) == x.haspos \/ CanCompact(x)
SetV == \E row \in -1..(r.rows), col \in 0..(r.cols - 1), k \in 1..(r.L), q \in {ND, Q, 3 * Q}:
          Do(<<"set", row, col, k, q>>, SetAt(r, row, col, k, q), "setv 4" \o Join(<<row, col, k, q>>))
Calc == Do(<<"calc">>, IF ~r.haspos /\ CanCompact(r) THEN Compact(r) ELSE r, "calcpos 4")
Replace == \E q \in {ND, Q, 0}: Do(<<"repl", q>>, ReplaceNod(r, q), "replnod 4 " \o T(q))
Reclass == \E m \in Maps: Do(<<"recls", m>>, Recls(r, m), "recls 4 " \o MapWords(m))
BuildSub == \E m \in Groups: Do(<<"build", m>>, IF ~Can(r) THEN r ELSE IF Compact(r).subs # <<>> THEN Compact(r) ELSE Build(Compact(r), m), "build 4 " \o MapWords(m))
Again == \E m \in Groups: LET r0 == [r EXCEPT !.subs = <<>>] IN Do(<<"rebuild", m>>, IF ~Can(r) THEN r0 ELSE Build(Compact(r0), m), "rebuild 4 " \o MapWords(m))
Forget == Do(<<"relsub">>, [r EXCEPT !.subs = <<>>], "relsub 4")
Data == \E j \in 1..Len(r.subs), L \in 1..2:
          LET s == r.subs[j]
              d == [i \in 1..s.n |-> [k \in 1..L |-> 4 * (10 * s.id + i + k)]]
          IN Do(<<"data", s.id>>, [r EXCEPT !.subs[j].data = d, !.subs[j].lyrs = L, !.subs[j].use = TRUE],
                "subdata 4" \o Join(<<s.id, s.n, L, 0>>) \o Join(FlattenSeq(d)))
Use == \E j \in 1..Len(r.subs), u \in BOOLEAN: Do(<<"use", j, u>>, [r EXCEPT !.subs[j].use = u], "subuse 4 " \o T(r.subs[j].id) \o (IF u THEN " 1" ELSE " 0"))
Outputs == Emit /\ \E o \in {"stats 4 1", "updstats 4 0", "out 4 whole asc 1", "out 4 whole tif 0", "outsub 4 s asc 1 0 -39996 0", "outsub 4 s asc 0 1 -39996 0", "outsub 4 s tif 0 0 12 0"}:
             n < MaxSteps /\ n' = n + 1 /\ Say(o) /\ UNCHANGED <<r, b, op>>
End == n = MaxSteps /\ n' = n + 1 /\ (Emit => PrintT("SCRIPT " \o script)) /\ UNCHANGED <<r, b, op, script>>
Next == SetV \/ Calc \/ Replace \/ Reclass \/ BuildSub \/ Again \/ Forget \/ Data \/ Use \/ Outputs \/ End
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------- laws
V(x, p) == At(x, RowOf(x, p), ColOf(x, p))
All == 0..(r.rows * r.cols - 1)
Is(o) == op[1] = o
Shape == /\ r.rows = b.rows /\ r.cols = b.cols /\ r.L = b.L /\ r.geo = b.geo
         /\ (IF r.haspos THEN Len(r.pos) = N(r) /\ (\A i \in 1..N(r): r.pos[i] \in All) /\ \A i \in 1..(N(r) - 1): r.pos[i] < r.pos[i + 1] ELSE N(r) = r.rows * r.cols)
         /\ \A i \in 1..N(r): Len(r.v[i]) = r.L
\* index and cell are inverse
Indexed == \A p \in All: LET i == Index(r, RowOf(r, p), ColOf(r, p)) IN IF i < 0 THEN r.haspos /\ V(r, p) = NoData(r) ELSE CellNo(r, i + 1) = p
SetFrame == Is("set") => \A p \in All: \A k \in 1..(r.L):
              V(r, p)[k] = (IF p = Flat(r, op[2], op[3]) /\ InGrid(r, op[2], op[3]) /\ k = op[4] /\ Index(b, op[2], op[3]) >= 0 THEN op[5] ELSE V(b, p)[k])
\* compact storage changes nothing one can see, except in cells without data in their first layer
SameView == (Is("calc") \/ Is("build") \/ Is("rebuild")) => \A p \in All: V(r, p) = (IF V(b, p)[1] = b.nod /\ r.haspos /\ ~b.haspos THEN NoData(r) ELSE V(b, p))
Replaced == Is("repl") => r.nod = op[2] /\ \A p \in All: \A k \in 1..(r.L): V(r, p)[k] = (IF V(b, p)[k] = b.nod THEN op[2] ELSE V(b, p)[k])
Reclassed == Is("recls") => r.nod = b.nod /\ \A p \in All: \A k \in 1..(r.L): V(r, p)[k] = (IF V(b, p)[k] = b.nod THEN b.nod ELSE Lookup(op[2], Trunc(V(b, p)[k]), b.nod))
\* statistics are those of the cells one sees with data in the layer
Counted == \A k \in 1..(r.L): LET S == {p \in All: V(r, p)[k] # r.nod} s == Stat(r, k)
             IN IF S = {} THEN s = <<0>>
                ELSE /\ s[1] = Cardinality(S) /\ s[3] = Min2({V(r, p)[k]: p \in S}) /\ s[4] = Max2({V(r, p)[k]: p \in S})
                     /\ s[2] >= s[1] * s[3] /\ s[2] <= s[1] * s[4] /\ s[6] >= 0 /\ (s[6] = 0 <=> s[5] = 0)
\* subsets: disjoint, in place, and just after they are made exactly the valid cells by group
Cellset(s) == ToSet(SubCells(r, s))
Partition == /\ \A i, j \in 1..Len(r.subs): i # j => (r.subs[i]).id # (r.subs[j]).id /\ Cellset(r.subs[i]) \cap Cellset(r.subs[j]) = {}
             /\ \A i \in 1..Len(r.subs): LET s == r.subs[i] IN
                  /\ s.n > 0 /\ Len(s.glob) = s.n /\ Len(s.loc) = s.n /\ (s.data # <<>> => Len(s.data) = s.n)
                  /\ \A c \in 1..s.n: LET p == CellNo(r, s.glob[c] + 1) w == s.box[4] - s.box[3] + 1
                       IN /\ RowOf(r, p) \in s.box[1]..s.box[2] /\ ColOf(r, p) \in s.box[3]..s.box[4]
                          /\ s.loc[c] = (RowOf(r, p) - s.box[1]) * w + (ColOf(r, p) - s.box[3])
Built == (Is("rebuild") \/ (Is("build") /\ b.subs = <<>>)) => (Can(b) =>
           /\ UNION {Cellset(r.subs[i]): i \in 1..Len(r.subs)} = {p \in All: V(r, p)[1] # r.nod}
           /\ \A i \in 1..Len(r.subs): LET s == r.subs[i] C == Cellset(s) IN
                /\ \A p \in C: Lookup(op[2], Trunc(V(r, p)[1]), Trunc(V(r, p)[1])) = s.id
                /\ s.box = <<Min2({RowOf(r, p): p \in C}), Max2({RowOf(r, p): p \in C}), Min2({ColOf(r, p): p \in C}), Max2({ColOf(r, p): p \in C})>>)
\* taken apart and put together again
Complete == (r.subs # <<>> /\ (\A i \in 1..Len(r.subs): (r.subs[i]).use) /\ UNION {Cellset(r.subs[i]): i \in 1..Len(r.subs)} = {CellNo(r, i): i \in 1..N(r)})
Combining == LET c == Combined(r, TRUE, <<>>, NODATA) IN (Complete /\ c.can) => c.L = r.L /\ \A p \in All: c.v[p + 1] = V(r, p)
\* written one by one, each value of a subset lies at its place on the ground
Pieces == LET o == OutEach(r, "x", "asc", TRUE, <<>>, NODATA, "INT32")
          IN \A i \in 1..Len(r.subs): LET s == r.subs[i] IN (s.use /\ o.ok) =>
               \A k \in 1..(r.L): LET name == FileName(T(s.id) \o "_x", IF r.L = 1 THEN -1 ELSE k, "asc")
                                      J == {j \in 1..Len(o.f): (o.f[j]).name = name}
                                  IN /\ Cardinality(J) = 1
                                     /\ LET g == (o.f[CHOOSE j \in J: TRUE]).x.c IN
                                        \A p \in All: LET c == Centre(r, RowOf(r, p), ColOf(r, p)) d == CellAt(g, c[1], c[2])
                                                      IN IF p \in Cellset(s) THEN d # Outside /\ g.v[Flat(g, d[1], d[2]) + 1] = V(r, p)[k]
                                                         ELSE d # Outside => g.v[Flat(g, d[1], d[2]) + 1] = g.nod
===========================================================================
