------------------------------ MODULE TimeTrace ------------------------------
EXTENDS TraceBase, TimeOps
VARIABLES zone, a, b      \* the process's time zone and two DateTime registers
vars == <<l, zone, a, b>>
NoDT == [t |-> <<0, 0>>, ms |-> 0, shift |-> 0, f |-> <<>>]
Init == l = 1 /\ zone = [off |-> 0, rule |-> 0] /\ a = NoDT /\ b = NoDT
Same == UNCHANGED <<zone, a, b>>

Reset == Is("reset") /\ zone' = [off |-> E.off, rule |-> E.rule] /\ a' = NoDT /\ b' = NoDT
Leap == Is("leap") /\ Chk("leap", C!IsLeap(E.y), E.r) /\ Same
JdMonth == /\ Is("jdmonth")
           /\ Chk("julian day", [k \in 1..C!DaysIn(E.y, E.m) |-> C!JDN(E.y, E.m, k)], E.jd)
           /\ Chk("day of year", [k \in 1..C!DaysIn(E.y, E.m) |-> C!DayOfYearOf(E.y, E.m, k)], E.doy)
           /\ Same
\* local readings: plain getters give the wall clock; texts and GetDateInfo give standard time
Conv == /\ Is("conv")
        /\ LET t == <<E.days, E.secs>>
               s == Fields(IF E.utc THEN t ELSE Std(zone, t))
           IN /\ Chk("date text", Text1(s), E.s1)
              /\ Chk("date time text", Text2(s), E.s2)
              /\ Chk("stamp text", Text3(s), E.s3)
              /\ Chk("date info", SubSeq(s, 1, 3), E.info)
              /\ Chk("round trip through text", t, E.back)
        /\ Same
Cal == /\ Is("cal")
       /\ LET t == <<E.days, E.secs>>
              w == Fields(IF E.utc THEN t ELSE Wall(zone, t))
          IN /\ Chk("getters", <<w[1], w[2], w[3], w[8], C!JDN(w[1], w[2], w[3])>>, E.get)
             /\ Chk("broken-down", <<w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8]>>, E.tm)
       /\ Same
Parse == /\ Is("parse")
         /\ LET f == <<E.f[1], E.f[2], E.f[3], E.f[4], E.f[5], E.f[6]>>
                loc == At(f[1], f[2], f[3], f[4], f[5], f[6])
            IN /\ Chk("text", TextOf(E.fmt, f), E.text)
               /\ Chk("instant", IF E.utc THEN loc ELSE Shift(loc, -zone.off), E.r)
         /\ Same
BadParse == Is("badparse") /\ Chk("unreadable date", <<0, 0>>, E.r) /\ Same
Ymd == /\ Is("ymd")
       /\ Chk("instant", LET loc == At(E.y, E.m, E.d, 0, 0, 0)
                         IN IF E.utc THEN loc ELSE Shift(loc, -zone.off), E.r)
       /\ Same

\* ---- DateTime: a point on the time line with its local broken-down reading ----
Norm(t, ms) == LET s == Shift(<<t[1], t[2]>>, ms \div 1000) IN [t |-> s, ms |-> ms % 1000]
Reading(dt) == [t |-> dt.t, ms |-> dt.ms, f |-> Fields(Wall(zone, dt.t))]
Logged(e) == [t |-> e.t, ms |-> e.ms, f |-> e.f]
\* day_of_year of a DateTime counts from 0
Adj(r) == [r EXCEPT !.f = [r.f EXCEPT ![8] = r.f[8] - 1]]
Put(reg, r) == IF reg = 0 THEN a' = r /\ b' = b ELSE b' = r /\ a' = a
Get(reg) == IF reg = 0 THEN a ELSE b
DtFrom == /\ Is("dt_from")
          /\ LET r == Adj(Reading([t |-> Shift(At(E.a[1], E.a[2], E.a[3], E.a[4], E.a[5], E.a[6]), -zone.off), ms |-> E.a[7]]))
             IN Chk("DateTime", r, Logged(E)) /\ Put(E.reg, r)
          /\ UNCHANGED zone
DtFile == /\ Is("dt_file")
          /\ LET r == Adj(Reading([t |-> <<E.days, E.secs>>, ms |-> E.mil]))
             IN Chk("DateTime", r, Logged(E)) /\ Put(E.reg, r)
          /\ UNCHANGED zone
DtMove == /\ Is("dt_move")
          /\ LET o == Get(E.reg)
                 r == Adj(Reading(Norm(o.t, o.ms + (IF E.fwd THEN E.n ELSE -E.n))))
             IN Chk("DateTime", r, Logged(E)) /\ Put(E.reg, r)
          /\ UNCHANGED zone
\* UTC fields, and back to the same local reading (zones without DST)
DtUtc == /\ Is("dt_utc")
         /\ LET o == Get(E.reg) IN
            /\ Chk("UTC fields", [SubSeq(Fields(o.t), 1, 8) EXCEPT ![8] = Fields(o.t)[8] - 1], E.f)
            /\ Chk("milliseconds", o.ms, E.ms)
            /\ Chk("back to local", o.f, E.g)
         /\ Same
DtCmp == /\ Is("dt_cmp")
         /\ LET lt == Before(a.t, b.t) \/ (a.t = b.t /\ a.ms < b.ms)
                eq == a.t = b.t /\ a.ms = b.ms
            IN Chk("comparisons", <<eq, ~eq, lt, lt \/ eq, ~lt /\ ~eq, ~lt>>, E.r)
         /\ Same
Next == Reset \/ Leap \/ JdMonth \/ Cal \/ Conv \/ Parse \/ BadParse \/ Ymd \/ DtFrom \/ DtFile \/ DtMove
        \/ DtUtc \/ DtCmp
Spec == Init /\ [][Next]_vars
==============================================================================
