------------------------------- MODULE DocDates -------------------------------
(* Instants that a document keeps as text: "y-m-d" or "y-m-d h:m:s" in universal time, each field written with or
   without leading zeros.  The reading is the instant as <<seconds \div 10^6, seconds % 10^6>>. *)
EXTENDS Integers, Sequences
LOCAL Cal == INSTANCE Calendar WITH cy <- 0, cm <- 0, cd <- 0, num <- 0, wd <- 0, yd <- 0, FirstYear <- 0, FirstNum <- 0, FirstWd <- 0, LastYear <- 0
LOCAL Digit(c) == c >= 48 /\ c <= 57
\* the numbers of a text and the separators between them
RECURSIVE Scan(_, _, _)
LOCAL Scan(t, nums, seps) ==
  IF t = <<>> THEN <<nums, seps>>
  ELSE IF Digit(t[1]) THEN Scan(Tail(t), [nums EXCEPT ![Len(nums)] = <<IF @[2] < 6 THEN @[1] * 10 + t[1] - 48 ELSE @[1], @[2] + 1>>], seps)
  ELSE Scan(Tail(t), Append(nums, <<0, 0>>), Append(seps, t[1]))
DateParts(t) == Scan(t, << <<0, 0>> >>, <<>>)
IsStamp(t) == /\ Len(t) \in 8..19
              /\ LET p == DateParts(t)
                     n == p[1]
                 IN /\ p[2] \in {<<45, 45>>, <<45, 45, 32, 58, 58>>} /\ \A i \in 1..Len(n): n[i][2] \in 1..4
                    /\ n[1][1] \in 1970..9999 /\ n[2][1] \in 1..12 /\ n[3][1] \in 1..Cal!DaysIn(n[1][1], n[2][1])
                    /\ (Len(n) = 6 => n[4][1] < 24 /\ n[5][1] < 60 /\ n[6][1] < 60 /\ \A i \in 4..6: n[i][2] <= 2)
Words(day, sec) == LET hundreds == day * 864 + sec \div 100
                   IN <<hundreds \div 10000, (hundreds % 10000) * 100 + (sec % 100)>>
StampOf(t) == LET n == DateParts(t)[1]
                  f == [i \in 1..6 |-> IF i <= Len(n) THEN n[i][1] ELSE 0]
              IN Words(Cal!JDN(f[1], f[2], f[3]) - Cal!Epoch, f[4] * 3600 + f[5] * 60 + f[6])
=============================================================================
