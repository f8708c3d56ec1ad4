-------------------------------- MODULE Text --------------------------------
(* Texts as sequences of byte codes: fields, words, letter case, numbers in texts, IP addresses.
   A number is <<sign, digits, exp>>: sign * 0.d1d2d3... * 10^exp without zeros at either end. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
NL == 10  TAB == 9  CR == 13  BL == 32  DOT == 46  MINUS == 45  PLUS == 43
Blank == {BL, NL, CR, TAB}
Space == Blank \cup {11, 12}
Digit(c) == c >= 48 /\ c <= 57
Upper1(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Upper(s) == [i \in 1..Len(s) |-> Upper1(s[i])]
Match(a, b) == Upper(a) = Upper(b)
\* ------------------------------------------------------------- fields
RECURSIVE Cut(_, _, _)
Cut(s, d, cur) == IF s = <<>> THEN <<cur>> ELSE IF s[1] \in d THEN <<cur>> \o Cut(Tail(s), d, <<>>) ELSE Cut(Tail(s), d, Append(cur, s[1]))
\* the end of the text ends the last field: it adds none
Fields(s, d) == LET c == Cut(s, {d}, <<>>) IN IF c[Len(c)] = <<>> THEN SubSeq(c, 1, Len(c) - 1) ELSE c
Words(s) == SelectSeq(Cut(s, Space, <<>>), LAMBDA w: w # <<>>)
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ s[1] \in Blank THEN TrimL(Tail(s)) ELSE s
Trim(s) == Reverse(TrimL(Reverse(TrimL(s))))
RECURSIVE Join(_, _)
Join(f, d) == IF f = <<>> THEN <<>> ELSE IF Len(f) = 1 THEN f[1] ELSE f[1] \o <<d>> \o Join(Tail(f), d)
\* ------------------------------------------------------------- numbers
AllDigits(s) == \A i \in 1..Len(s): Digit(s[i])
RECURSIVE LessDigits(_, _)     \* of the same length
LessDigits(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LessDigits(Tail(a), Tail(b))
LeDigits(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ ~LessDigits(b, a))
D(n) == [i \in 1..Len(n) |-> n[i] + 48]
\* the canonical form of an integer: no sign but a minus, no leading zeros
CanonU(s) == s # <<>> /\ AllDigits(s) /\ (Len(s) > 1 => s[1] # 48)
CanonI(s) == CanonU(s) \/ (Len(s) > 1 /\ s[1] = MINUS /\ CanonU(Tail(s)) /\ s[2] # 48)
IntIn(s, neg, pos) == CanonI(s) /\ IF s[1] = MINUS THEN LeDigits(Tail(s), D(neg)) ELSE LeDigits(s, D(pos))
I32n == <<2,1,4,7,4,8,3,6,4,8>>  I32p == <<2,1,4,7,4,8,3,6,4,7>>  U32 == <<4,2,9,4,9,6,7,2,9,5>>
I64n == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>  I64p == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>  U64 == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
UIn(s, max) == CanonU(s) /\ LeDigits(s, D(max))
\* ---- floating point texts: blanks, sign, digits with at most one point, exponent
RECURSIVE Lead(_)
Lead(s) == IF s # <<>> /\ s[1] \in Space THEN Lead(Tail(s)) ELSE s
Unsigned(s) == IF s # <<>> /\ s[1] \in {PLUS, MINUS} THEN Tail(s) ELSE s
FirstOf(s, S) == IF \E i \in 1..Len(s): s[i] \in S THEN CHOOSE i \in 1..Len(s): s[i] \in S /\ \A j \in 1..(i - 1): s[j] \notin S ELSE 0
Mant(s) == LET k == FirstOf(s, {101, 69}) IN IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1)
ExpT(s) == LET k == FirstOf(s, {101, 69}) IN IF k = 0 THEN <<>> ELSE SubSeq(s, k + 1, Len(s))
HasE(s) == FirstOf(s, {101, 69}) # 0
Whole(m) == LET k == FirstOf(m, {DOT}) IN IF k = 0 THEN m ELSE SubSeq(m, 1, k - 1)
Frac(m) == LET k == FirstOf(m, {DOT}) IN IF k = 0 THEN <<>> ELSE SubSeq(m, k + 1, Len(m))
Word(s, w) == Match(s, w)
Inf == <<73, 78, 70>>  Infinity == <<73, 78, 70, 73, 78, 73, 84, 89>>  NaN == <<78, 65, 78>>
Plain(t) == LET m == Mant(t) IN AllDigits(Whole(m)) /\ AllDigits(Frac(m)) /\ Len(Whole(m)) + Len(Frac(m)) > 0
                                /\ (HasE(t) => LET e == Unsigned(ExpT(t)) IN e # <<>> /\ AllDigits(e))
IsDbl(s) == LET t == Unsigned(Lead(s)) IN Plain(t) \/ Word(t, Inf) \/ Word(t, Infinity) \/ Word(t, NaN)
RECURSIVE Num(_, _)
Num(d, acc) == IF d = <<>> \/ acc > 99999 THEN acc ELSE Num(Tail(d), 10 * acc + (d[1] - 48))
RECURSIVE Zeros(_)     \* leading zeros
Zeros(d) == IF d # <<>> /\ d[1] = 48 THEN 1 + Zeros(Tail(d)) ELSE 0
DblOf(s) ==
  LET u == Lead(s)   neg == u # <<>> /\ u[1] = MINUS   t == Unsigned(u)   sg == IF neg THEN -1 ELSE 1
  IN IF Word(t, NaN) THEN <<2, <<>>, 0>> ELSE IF Word(t, Inf) \/ Word(t, Infinity) THEN <<3 * sg, <<>>, 0>>
     ELSE LET m == Mant(t)   all == Whole(m) \o Frac(m)   z == Zeros(all)
              d == SubSeq(all, z + 1, Len(all) - Zeros(Reverse(SubSeq(all, z + 1, Len(all)))))
              et == ExpT(t)   ev == IF ~HasE(t) THEN 0 ELSE (IF et[1] = MINUS THEN -1 ELSE 1) * Num(Unsigned(et), 0)
              ex == (Len(Whole(m)) - z) + ev
          IN IF d = <<>> THEN <<0, <<>>, 0>> ELSE IF ex > 309 THEN <<3 * sg, <<>>, 0>> ELSE IF ex < -330 THEN <<0, <<>>, 0>>
             ELSE <<sg, [i \in 1..Len(d) |-> d[i] - 48], ex>>
\* the whole part, as an integer element holds it
TruncNum(v) == IF v[1] \notin {-1, 1} \/ v[3] <= 0 THEN <<0, <<>>, 0>>
               ELSE LET d == SubSeq(v[2], 1, IF Len(v[2]) < v[3] THEN Len(v[2]) ELSE v[3])
                        k == Zeros([i \in 1..Len(d) |-> d[Len(d) + 1 - i] + 48])
                    IN <<v[1], SubSeq(d, 1, Len(d) - k), v[3]>>
Readable(w) == IsDbl(Trim(w)) /\ \E i \in 1..Len(w): Digit(w[i])
\* the canonical text of a decimal number with few digits
CanonF(s) == LET t == IF s # <<>> /\ s[1] = MINUS THEN Tail(s) ELSE s   w == Whole(t)   f == Frac(t)
             IN /\ CanonU(w) /\ AllDigits(f) /\ (FirstOf(t, {DOT}) # 0 => f # <<>> /\ f[Len(f)] # 48) /\ Len(f) <= 6 /\ Len(w) + Len(f) <= 15
                /\ (s[1] = MINUS => w # <<48>> \/ f # <<>>)
\* ------------------------------------------------------------- IP addresses
Octet(f) == Len(f) >= 1 /\ Len(f) <= 3 /\ AllDigits(f) /\ Num(f, 0) <= 255
IsIp(s) == LET f == Cut(s, {DOT}, <<>>) IN Len(f) = 4 /\ \A i \in 1..4: Octet(f[i])
=============================================================================
