------------------------------- MODULE Calendar -------------------------------
(* The Gregorian calendar as a machine that advances one day at a time, and the     *)
(* closed forms that the library's day numbering has to agree with.                 *)
EXTENDS Integers, Sequences

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m = 2 -> (IF IsLeap(y) THEN 29 ELSE 28)
                  [] m \in {4, 6, 9, 11} -> 30
                  [] OTHER -> 31
Before == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DayOfYearOf(y, m, d) == Before[m] + d + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)
\* Julian day number of a civil date (0001-01-01 is 1721426)
JDN(y, m, d) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
                + DayOfYearOf(y, m, d) + 1721425
Epoch == 2440588                          \* 1970-01-01
YearStart(y) == JDN(y, 1, 1)
\* the civil date of a Julian day number
YearOf(j) == LET e == (j - 1721426) \div 366 + 1
                 RECURSIVE Up(_)
                 Up(y) == IF YearStart(y + 1) <= j THEN Up(y + 1) ELSE y
             IN Up(e)
Civil(j) == LET y == YearOf(j)
                r == j - YearStart(y) + 1
                m == CHOOSE k \in 1..12 : r >= DayOfYearOf(y, k, 1) /\ r <= DayOfYearOf(y, k, DaysIn(y, k))
            IN <<y, m, r - DayOfYearOf(y, m, 1) + 1>>
Weekday(j) == (j + 1) % 7                 \* 0 = Sunday

VARIABLES cy, cm, cd, num, wd, yd
calvars == <<cy, cm, cd, num, wd, yd>>
CONSTANTS FirstYear, FirstNum, FirstWd, LastYear
CalInit == cy = FirstYear /\ cm = 1 /\ cd = 1 /\ num = FirstNum /\ wd = FirstWd /\ yd = 1
Tick == /\ cy <= LastYear
        /\ num' = num + 1
        /\ wd' = (wd + 1) % 7
        /\ IF cd < DaysIn(cy, cm) THEN cd' = cd + 1 /\ cm' = cm /\ cy' = cy /\ yd' = yd + 1
           ELSE IF cm < 12 THEN cd' = 1 /\ cm' = cm + 1 /\ cy' = cy /\ yd' = yd + 1
           ELSE cd' = 1 /\ cm' = 1 /\ cy' = cy + 1 /\ yd' = 1
CalSpec == CalInit /\ [][Tick]_calvars
\* the closed forms agree with counting days one by one
NumberingRight == /\ JDN(cy, cm, cd) = num
                  /\ DayOfYearOf(cy, cm, cd) = yd
                  /\ Civil(num) = <<cy, cm, cd>>
                  /\ Weekday(num) = wd
YearLength == yd <= 366 /\ (yd = 366 => IsLeap(cy)) /\ cd <= DaysIn(cy, cm)
===============================================================================
