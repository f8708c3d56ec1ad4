------------------------------- MODULE TimeOps -------------------------------
(* Points on the time line are <<day since 1970-01-01, second of the day>>; zones are   *)
(* records [off, rule]: a fixed offset of standard time plus an optional DST rule.      *)
EXTENDS Integers, Sequences
CONSTANTS FirstYear, FirstNum, FirstWd, LastYear
C == INSTANCE Calendar WITH cy <- 0, cm <- 0, cd <- 0, num <- 0, wd <- 0, yd <- 0
DaySecs == 86400
Shift(t, s) == LET x == t[2] + s IN <<t[1] + x \div DaySecs, x % DaySecs>>
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
\* the n-th Sunday of a month, as a day number
NthSunday(y, m, n) == LET f == C!JDN(y, m, 1) IN f + ((7 - C!Weekday(f)) % 7) + 7 * (n - 1)
\* switching instants of a year expressed in standard local time
DstStart(z, y) == IF z.rule = 1 THEN <<NthSunday(y, 3, 2) - C!Epoch, 7200>>
                                ELSE <<NthSunday(y, 10, 1) - C!Epoch, 7200>>
DstEnd(z, y) == IF z.rule = 1 THEN <<NthSunday(y, 11, 1) - C!Epoch, 3600>>
                              ELSE <<NthSunday(y, 4, 1) - C!Epoch, 7200>>
Std(z, t) == Shift(t, z.off)
IsDst(z, t) == IF z.rule = 0 THEN FALSE
               ELSE LET s == Std(z, t)
                        y == C!Civil(s[1] + C!Epoch)[1]
                    IN IF z.rule = 1 THEN ~Before(s, DstStart(z, y)) /\ Before(s, DstEnd(z, y))
                       ELSE ~Before(s, DstStart(z, y)) \/ Before(s, DstEnd(z, y))
Wall(z, t) == Shift(t, z.off + (IF IsDst(z, t) THEN 3600 ELSE 0))
\* broken-down time of a local reading: <<y, m, d, h, mi, s, wday, yday>>
Fields(w) == LET j == w[1] + C!Epoch
                 c == C!Civil(j)
             IN c \o <<w[2] \div 3600, (w[2] % 3600) \div 60, w[2] % 60, C!Weekday(j),
                       C!DayOfYearOf(c[1], c[2], c[3])>>
At(y, m, d, h, mi, s) == <<C!JDN(y, m, d) - C!Epoch, 3600 * h + 60 * mi + s>>
\* decimal text (codes) of width at least n
RECURSIVE Dec(_)
Dec(k) == IF k < 10 THEN <<48 + k>> ELSE Dec(k \div 10) \o <<48 + (k % 10)>>
RECURSIVE Pad(_, _)
Pad(q, n) == IF Len(q) >= n THEN q ELSE Pad(<<48>> \o q, n)
D2(k) == Pad(Dec(k), 2)
D4(k) == Pad(Dec(k), 4)
Dash == <<45>>
Under == <<95>>
Colon == <<58>>
Space == <<32>>
Text1(f) == D4(f[1]) \o Dash \o D2(f[2]) \o Dash \o D2(f[3])
Text2(f) == Text1(f) \o Space \o D2(f[4]) \o Colon \o D2(f[5]) \o Colon \o D2(f[6])
Text3(f) == D4(f[1]) \o Under \o D2(f[2]) \o Under \o D2(f[3]) \o Under \o D2(f[4]) \o D2(f[5]) \o D2(f[6])
TextOf(fmt, f) == CASE fmt = 0 -> D4(f[1]) \o D2(f[2]) \o D2(f[3])
                    [] fmt = 1 -> Text1(f)
                    [] fmt = 4 -> Dec(f[1]) \o Dash \o Dec(f[2]) \o Dash \o Dec(f[3])
                    [] OTHER -> Text2(f)
==============================================================================
