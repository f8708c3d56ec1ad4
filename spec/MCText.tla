-------------------------------- MODULE MCText -------------------------------
(* The laws of Text over all texts up to a length over a small alphabet (Alpha), letter by letter. *)
EXTENDS Text
CONSTANTS Alpha, N
VARIABLE s
Init == s = <<>>
Next == Len(s) < N /\ \E c \in Alpha: s' = Append(s, c)
Spec == Init /\ [][Next]_s
d == 44
FieldsJoin == LET f == Fields(s, d) j == Join(f, d) IN s = j \/ s = Append(j, d) \/ (f = <<>> /\ s = <<>>)
FieldsClean == \A i \in 1..Len(Fields(s, d)): \A k \in 1..Len(Fields(s, d)[i]): Fields(s, d)[i][k] # d
WordsClean == \A i \in 1..Len(Words(s)): Words(s)[i] # <<>> /\ \A k \in 1..Len(Words(s)[i]): Words(s)[i][k] \notin Space
WordsTrim == Words(Trim(s)) = Words(s) /\ Trim(Trim(s)) = Trim(s)
WordsLetters == FoldSeq(LAMBDA w, a: a + Len(w), 0, Words(s)) = Cardinality({i \in 1..Len(s): s[i] \notin Space})
TrimIs == Trim(s) = <<>> \/ (Trim(s)[1] \notin Blank /\ Trim(s)[Len(Trim(s))] \notin Blank)
UpperIs == Upper(Upper(s)) = Upper(s) /\ Match(s, Upper(s))
\* numbers: an integer text in range of one type is in range of the wider ones, and is a number with that value
IntWider == (IntIn(s, I32n, I32p) => IntIn(s, I64n, I64p)) /\ (UIn(s, U32) => UIn(s, U64) /\ IntIn(s, I64n, I64p)) /\ (CanonU(s) => CanonI(s))
IntIsDbl == CanonI(s) => IsDbl(s) /\ LET v == DblOf(s) IN v[1] \in {-1, 0, 1} /\ TruncNum(v) = v
NoBlankEnd == IsDbl(s) /\ s # <<>> => s[Len(s)] \notin Space
PlusSame == IsDbl(s) /\ s[1] \notin ({PLUS, MINUS} \cup Space) => IsDbl(<<PLUS>> \o s) /\ DblOf(<<PLUS>> \o s) = DblOf(s) /\ DblOf(<<BL>> \o s) = DblOf(s)
                                                  /\ LET a == DblOf(s) b == DblOf(<<MINUS>> \o s) IN a[1] # 2 => b = <<-(a[1]), a[2], a[3]>>
PointShift == Plain(s) /\ ~HasE(s) => DblOf(s \o <<101, 49>>)[3] = DblOf(s)[3] + (IF DblOf(s)[1] = 0 THEN 0 ELSE 1)
IpDots == IsIp(s) => Cardinality({i \in 1..Len(s): s[i] = DOT}) = 3 /\ Len(s) >= 7 /\ Len(s) <= 15
IpExtra == IsIp(s) => ~IsIp(Append(s, DOT)) /\ ~IsIp(<<DOT>> \o s)
=============================================================================
