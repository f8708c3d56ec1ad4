----------------------------- MODULE TypeTrace -----------------------------
(* Data types of rasters and of GeoTIFF files.  Numbers are <<sign, limbs, quarters>>: limbs of six
   decimal digits, the most significant first, so that the limits of the 64-bit types are exact. *)
EXTENDS TraceBase, SequencesExt, FiniteSets
VARIABLE files
vars == <<l, files>>
Init == l = 1 /\ files = <<>>
\* ------------------------------------------------------------- numbers
Whole(s, limbs) == <<s, limbs, 0>>
RECURSIVE CmpSeq(_, _)
CmpSeq(a, b) == IF a = <<>> THEN 0 ELSE IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1) ELSE CmpSeq(Tail(a), Tail(b))
CmpMag(a, b) == IF Len(a[2]) # Len(b[2]) THEN (IF Len(a[2]) < Len(b[2]) THEN -1 ELSE 1)
                ELSE LET c == CmpSeq(a[2], b[2]) IN IF c # 0 THEN c ELSE IF a[3] = b[3] THEN 0 ELSE IF a[3] < b[3] THEN -1 ELSE 1
Le(a, b) == IF a[1] # b[1] THEN a[1] < b[1] ELSE IF a[1] >= 0 THEN CmpMag(a, b) <= 0 ELSE CmpMag(a, b) >= 0
TruncN(a) == IF a[2] = <<>> THEN <<0, <<>>, 0>> ELSE <<a[1], a[2], 0>>
Zero == <<0, <<>>, 0>>
\* ------------------------------------------------------------- types
IntTypes == {"UINT8", "INT8", "UINT16", "INT16", "UINT32", "INT32", "UINT64", "INT64"}
Types == IntTypes \cup {"FLOAT", "DOUBLE"}
Codes == <<"UINT8", "INT8", "UINT16", "INT16", "UINT32", "INT32", "UINT64", "INT64", "FLOAT", "DOUBLE">>   \* code 1 to 10
Lo(t) == CASE t \in {"UINT8", "UINT16", "UINT32", "UINT64"} -> Zero
           [] t = "INT8" -> Whole(-1, <<128>>) [] t = "INT16" -> Whole(-1, <<32768>>)
           [] t = "INT32" -> Whole(-1, <<2147, 483648>>) [] t = "INT64" -> Whole(-1, <<9, 223372, 36854, 775808>>)
FltMax == <<340, 282346, 638528, 859811, 704183, 484516, 925440>>
DblBig == <<9, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999998>>
Hi(t) == CASE t = "UINT8" -> Whole(1, <<255>>) [] t = "UINT16" -> Whole(1, <<65535>>) [] t = "UINT32" -> Whole(1, <<4294, 967295>>)
           [] t = "UINT64" -> Whole(1, <<18, 446744, 73709, 551615>>) [] t = "INT8" -> Whole(1, <<127>>) [] t = "INT16" -> Whole(1, <<32767>>)
           [] t = "INT32" -> Whole(1, <<2147, 483647>>) [] t = "INT64" -> Whole(1, <<9, 223372, 36854, 775807>>)
           [] t = "FLOAT" -> Whole(1, FltMax) [] t = "DOUBLE" -> Whole(1, DblBig)
InRange(x, t) == IF t \in IntTypes THEN Le(Lo(t), x) /\ Le(x, Hi(t)) ELSE Le(<<1, x[2], x[3]>>, Hi(t))
Holds(x, t) == InRange(x, t) /\ (t \in IntTypes => x[3] = 0)
DefNoD(t) == CASE t \in {"UINT8", "UINT16", "UINT32"} -> Hi(t)
               [] t \in {"INT8", "INT16", "INT32", "INT64"} -> Lo(t)
               [] t = "UINT64" -> Whole(1, <<18, 446744, 73709, 551616>>)      \* as a double
               [] t \in {"FLOAT", "DOUBLE"} -> Whole(-1, FltMax)
               [] OTHER -> Whole(-1, <<9999>>)
DefCell(t) == IF t = "UINT64" THEN Hi(t) ELSE DefNoD(t)       \* as the cells of a file hold it
\* floating point types round the largest integers
Rnd(x, t) == IF t = "DOUBLE" \/ t = "FLOAT"
             THEN CASE x = Hi("UINT64") -> Whole(1, <<18, 446744, 73709, 551616>>) [] x = Hi("INT64") -> Whole(1, <<9, 223372, 36854, 775808>>)
                    [] x = Hi("UINT32") /\ t = "FLOAT" -> Whole(1, <<4294, 967296>>) [] x = Hi("INT32") /\ t = "FLOAT" -> Whole(1, <<2147, 483648>>) [] OTHER -> x
             ELSE x
Dbl(x) == Rnd(x, "DOUBLE")      \* no-data values are kept as doubles
FltOk(x) == Le(<<1, x[2], x[3]>>, Whole(1, <<16, 777216>>)) \/ Len(x[2]) > 5 \/ x \in ({Lo(t): t \in IntTypes} \cup {Hi(t): t \in IntTypes})
Gdal(t) == CASE t = "UINT8" -> "Byte" [] t = "INT8" -> "Int8" [] t = "UINT16" -> "UInt16" [] t = "INT16" -> "Int16" [] t = "UINT32" -> "UInt32"
             [] t = "INT32" -> "Int32" [] t = "UINT64" -> "UInt64" [] t = "INT64" -> "Int64" [] t = "FLOAT" -> "Float32" [] t = "DOUBLE" -> "Float64" [] OTHER -> "Unknown"
\* ------------------------------------------------------------- files
Gone == Is("drop") /\ files' = files /\ Chk("data sets left open", 0, E.open) /\ Ok("no memory lost", ~E.lost)
Reset == Is("reset") /\ files' = <<>>
File(f) == (files[CHOOSE i \in 1..Len(files): files[i].f = f]).c
Has(f) == \E i \in 1..Len(files): files[i].f = f
Put(f, c) == files' = Append(SelectSeq(files, LAMBDA x: x.f # f), [f |-> f, c |-> c])
Drop(f) == files' = SelectSeq(files, LAMBDA x: x.f # f)
Named(s) == CASE s \in {"UINT8", "uint8", "UCHAR", "uChar", "GDT_Byte", "gdt_byte"} -> "UINT8" [] s \in {"INT8", "Int8", "CHAR", "char", "GDT_Int8"} -> "INT8"
              [] s \in {"UINT16", "UInt16", "GDT_UInt16", "GDT_UINT16"} -> "UINT16" [] s \in {"INT16", "int16", "GDT_Int16"} -> "INT16"
              [] s \in {"UINT32", "uint32", "GDT_UInt32"} -> "UINT32" [] s \in {"INT32", "int32", "GDT_Int32", "gdt_int32"} -> "INT32"
              [] s \in {"UINT64", "uint64", "GDT_UInt64"} -> "UINT64" [] s \in {"INT64", "Int64", "GDT_Int64"} -> "INT64"
              [] s \in {"FLOAT", "float", "Float", "GDT_Float32"} -> "FLOAT" [] s \in {"DOUBLE", "double", "GDT_Float64", "GDT_FLOAT64"} -> "DOUBLE" [] OTHER -> "Unknown"
Write == /\ Is("gt")
         /\ LET want == Named(E.out)
                eff == IF want = "Unknown" THEN E.t ELSE want
                conv == eff # E.t
                nod == IF ~conv THEN E.nod ELSE IF Holds(E.nod, eff) THEN Rnd(E.nod, eff) ELSE DefCell(eff)
                toInt == conv /\ eff \in IntTypes
                W(x) == IF Dbl(x) = Dbl(E.nod) THEN nod ELSE IF toInt THEN TruncN(x) ELSE Rnd(x, eff)
                ok == \A i \in 1..Len(E.v): Dbl(E.v[i]) = Dbl(E.nod) \/ ~conv \/ (InRange(E.v[i], eff) /\ W(E.v[i]) # nod)
                c == [type |-> Gdal(eff), nod |-> nod, v |-> [i \in 1..Len(E.v) |-> W(E.v[i])], rows |-> E.rows, cols |-> E.cols, hasnod |-> TRUE,
                      geo |-> <<E.geo[1], E.geo[2], E.geo[3], E.geo[3]>>, in |-> eff]
            IN /\ Chk("type asked for", want, E.ot) /\ Chk("written", ok, E.ok)
               /\ IF ok THEN /\ \A k \in (DOMAIN c) \ {"in"}: k \in DOMAIN E.file /\ Chk(<<"file", k>>, c[k], E.file[k])
                             /\ Put(E.f, c)
                  ELSE Drop(E.f)
InOf(type) == CASE type = "Byte" -> "UINT8" [] type = "Int8" -> "INT8" [] type = "UInt16" -> "UINT16" [] type = "Int16" -> "INT16" [] type = "UInt32" -> "UINT32"
                [] type = "Int32" -> "INT32" [] type = "UInt64" -> "UINT64" [] type = "Int64" -> "INT64" [] type = "Float32" -> "FLOAT" [] OTHER -> "DOUBLE"
\* byte files without a no-data value and without values above 127 are taken as signed ones
RawF == /\ Is("raw")
        /\ LET t0 == InOf(E.type)
               signed == t0 = "UINT8" /\ ~E.hasnod /\ \A i \in 1..Len(E.v): Le(E.v[i], Hi("INT8"))
               t == IF signed THEN "INT8" ELSE t0
           IN Put(E.f, [type |-> E.type, nod |-> IF E.hasnod THEN E.nod ELSE DefNoD(t), v |-> E.v, rows |-> E.rows, cols |-> E.cols, in |-> t, hasnod |-> E.hasnod, geo |-> <<>>])
ReadF == /\ Is("rd") /\ UNCHANGED files
         /\ IF ~Has(E.f) THEN Chk("read", FALSE, E.ok)
            ELSE LET c == File(E.f)
                     fits == Holds(c.nod, E.t) /\ \A i \in 1..Len(c.v): Holds(c.v[i], E.t) /\ (E.t = "FLOAT" => FltOk(c.v[i]) /\ FltOk(c.nod))
                     some == \E i \in 1..Len(c.v): Dbl(c.v[i]) # Dbl(c.nod)
                 IN IF ~fits THEN TRUE
                    ELSE /\ Chk("read", ~E.calc \/ some, E.ok)
                         /\ E.ok => /\ Chk("values", [i \in 1..Len(c.v) |-> IF Dbl(c.v[i]) = Dbl(c.nod) /\ i <= Len(E.v) /\ E.v[i] = E.nod THEN E.nod ELSE Rnd(c.v[i], E.t)], E.v) /\ Chk("no-data", Rnd(Dbl(c.nod), E.t), E.nod) /\ Chk("shape", <<c.rows, c.cols>>, <<E.rows, E.cols>>)
                                    /\ Chk("no-data cells", [i \in 1..Len(c.v) |-> IF Dbl(c.v[i]) = Dbl(c.nod) THEN 1 ELSE 0], E.nd) /\ Chk("type read", c.in, E.in)
                                    /\ Chk("type written next", c.in, E.ot)
\* ------------------------------------------------------------- tables
Name == Is("name") /\ UNCHANGED files /\ Chk("name", Named(E.s), E.name) /\ Chk("code", IF Named(E.s) = "Unknown" THEN 0 ELSE CHOOSE i \in 1..10: Codes[i] = Named(E.s), E.code)
Code == /\ Is("code") /\ UNCHANGED files
        /\ LET t == IF E.c >= 1 /\ E.c <= 10 THEN Codes[E.c] ELSE "Unknown"
           IN /\ Chk("name", t, E.name) /\ Chk("back", IF t = "Unknown" THEN 0 ELSE E.c, E.back) /\ Chk("default no-data", DefNoD(t), E.nod)
              /\ Ok("the type holds it", t \in {"Unknown", "UINT64"} \/ Holds(E.nod, t)) /\ Chk("file type", Gdal(t), E.gdal)
CppMap == <<<<"unsigned char", "UINT8">>, <<"char", "INT8">>, <<"signed char", "INT8">>, <<"short", "INT16">>, <<"unsigned short", "UINT16">>, <<"int", "INT32">>, <<"unsigned int", "UINT32">>,
            <<"int64", "INT64">>, <<"uint64", "UINT64">>, <<"float", "FLOAT">>, <<"double", "DOUBLE">>, <<"string", "Unknown">>, <<"bool", "Unknown">>>>
Cpp == Is("cpp") /\ UNCHANGED files /\ Chk("types", CppMap, E.m)
Opts == /\ Is("opts") /\ UNCHANGED files
        /\ LET S == {i \in 1..Len(E.o): E.o[i][1] = "DATATYPE_OUT"}
           IN Chk("type of the options", IF S = {} THEN "Unknown" ELSE Named(E.o[CHOOSE i \in S: \A j \in S: j <= i][2]), E.name)
Next == Gone \/ Reset \/ Write \/ RawF \/ ReadF \/ Name \/ Code \/ Cpp \/ Opts
Spec == Init /\ [][Next]_vars
=============================================================================
