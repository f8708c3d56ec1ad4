----------------------------- MODULE TextTrace ------------------------------
(* Recorded calls of the text functions are what Text gives; option maps are state. *)
EXTENDS TraceBase, Text
VARIABLE m          \* the option map: sequence of <<key, value>> in the order of keys
vars == <<l, m>>
Init == l = 1 /\ m = <<>>
Same == UNCHANGED m
RECURSIVE LessText(_, _)
LessText(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LessText(Tail(a), Tail(b))
PutIn(x, k, v) == SelectSeq(x, LAMBDA p: LessText(p[1], k)) \o <<<<k, v>>>> \o SelectSeq(x, LAMBDA p: LessText(k, p[1]))
RECURSIVE PutAll(_, _)
PutAll(x, in) == IF in = <<>> THEN x ELSE PutAll(PutIn(x, in[1][1], in[1][2]), Tail(in))
Reset == Is("reset") /\ m' = <<>>
SplitOp == Is("split") /\ Same /\ Chk("fields", Fields(E.s, E.d), E.f)
WordsOp == Is("words") /\ Same /\ Chk("words", Words(E.s), E.f)
TrimOp == Is("trim") /\ Same /\ Chk("trimmed", Trim(E.s), E.t) /\ Chk("trimmed spaces", Trim(E.s), E.u) /\ Chk("returned", Trim(E.s), E.r) /\ Ok("the same text returned", E.same)
UpToNul(s) == LET k == {i \in 1..Len(s): s[i] = 0} IN IF k = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in k: \A j \in k: i <= j) - 1)   \* what a char* sees
UpperOp == Is("upper") /\ Same /\ Chk("upper case", Upper(E.s), E.u)
MatchOp == Is("match") /\ Same /\ LET y == Match(E.s, E.t) IN Chk("match", y, E.m) /\ Chk("match of char*", Match(UpToNul(E.s), UpToNul(E.t)), E.mc) /\ Chk("the other way round", y, E.back)
V(ok) == IF ok THEN E.s ELSE <<>>
IntOp == /\ Is("int") /\ Same
         /\ LET i == IntIn(E.s, I32n, I32p)   g == IntIn(E.s, I64n, I64p)   u == UIn(E.s, U64)
               g8 == UIn(E.s, U64)
            IN /\ Chk("int", <<i, V(i)>>, <<E.i, E.iv>>) /\ Chk("wide int", <<i, V(i)>>, <<E.iw, E.iwv>>)
               /\ Chk("int64", <<g, V(g)>>, <<E.l, E.lv>>) /\ Chk("wide int64", <<g, V(g)>>, <<E.lw, E.lwv>>)
               /\ Chk("unsigned", <<u, V(u)>>, <<E.u, E.uv>>) /\ Chk("wide unsigned", <<u, V(u)>>, <<E.uw, E.uwv>>)
               /\ Chk("uint64", <<g8, V(g8)>>, <<E.m, E.mv>>) /\ Chk("wide uint64", <<g8, V(g8)>>, <<E.mw, E.mwv>>) /\ Ok("To functions agree", E.toi)
Exact(v) == v[1] \notin {-1, 1} \/ (Len(v[2]) <= 15 /\ v[3] <= 308 /\ v[3] >= -300)
DblOp == /\ Is("dbl") /\ Same
         /\ LET ok == IsDbl(E.s) IN /\ Chk("number", ok, E.d) /\ Chk("wide number", ok, E.dw) /\ Chk("is number", <<ok, ok>>, <<E.num, E.numw>>)
                                    /\ (ok /\ Exact(DblOf(E.s)) => Chk("value", DblOf(E.s), E.v) /\ Chk("wide value", DblOf(E.s), E.vw) /\ Chk("To", DblOf(E.s), E.to))
ValsOp == /\ Is("vals") /\ Same
          /\ LET f == Fields(E.s, E.d)   good == SelectSeq(f, Readable)   ok == f # <<>> /\ Len(good) = Len(f)
             IN /\ Chk("all read", <<ok, ok>>, <<E.ok, E.oki>>)
                /\ (ok => /\ Chk("values", [i \in 1..Len(f) |-> DblOf(Trim(f[i]))], E.v) /\ Chk("whole values", [i \in 1..Len(f) |-> TruncNum(DblOf(Trim(f[i])))], E.vi))
                /\ (~ok /\ f # <<>> => Ok("nothing but values of the text", \A i \in 1..Len(E.v): \E j \in 1..Len(good): E.v[i] = DblOf(Trim(good[j]))))
FmtOp == Is("fmt") /\ Same /\ Ok("canonical", CanonI(E.s)) /\ Chk("formatted", [i \in 1..Len(E.t) |-> E.s], E.t)
FtoaOp == Is("ftoa") /\ Same /\ Ok("canonical", CanonF(E.s)) /\ Chk("formatted", E.s, E.t) /\ Chk("formatted wide", E.s, E.tw) /\ Chk("wide and back", E.s, E.wide)
IpOp == Is("ip") /\ Same /\ Chk("address", IsIp(E.s), E.ip)
PutOp == Is("put") /\ m' = PutIn(m, E.k, E.v) /\ Chk("map", m', E.m)
CopyOp == Is("copy") /\ m' = PutAll(m, E.in) /\ Chk("map", m', E.m)
Next == Reset \/ SplitOp \/ WordsOp \/ TrimOp \/ UpperOp \/ MatchOp \/ IntOp \/ DblOp \/ ValsOp \/ FmtOp \/ FtoaOp \/ IpOp \/ PutOp \/ CopyOp
Spec == Init /\ [][Next]_vars
=============================================================================
