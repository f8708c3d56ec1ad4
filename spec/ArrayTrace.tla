----------------------------- MODULE ArrayTrace -----------------------------
(* Recorded operations on array handles are steps of this machine; every event carries the contents of all handles
   and the number of memory blocks in use.  Handles are <<element type, number>>. A step may have failing allocations:
   E.fault is the number of the allocation of this step that fails, 0 if none. *)
EXTENDS TraceBase, Arrays
VARIABLES one, two, cls
vars == <<l, one, two, cls>>
Types == {"i", "s", "f", "d"}
HS == Types \X (1..3)
Empty == [h \in HS |-> Nil]
Init == l = 1 /\ one = Empty /\ two = Empty /\ cls = Empty
Fun(q) == [h \in HS |-> IF \E i \in 1..Len(q): q[i][1] = h[1] /\ q[i][2] = h[2] THEN (CHOOSE x \in {q[i]: i \in 1..Len(q)}: x[1] = h[1] /\ x[2] = h[2])[3] ELSE Nil]
Mem == Blocks(one', 1) + Blocks(two', 2) + Blocks(cls', 2)
State == Chk("1D arrays", one', Fun(E.one)) /\ Chk("2D arrays", two', Fun(E.two)) /\ Chk("array objects", cls', Fun(E.cls)) /\ Chk("memory blocks", Mem, E.mem)
H == <<E.t, E.h>>
G == <<E.ft, E.g>>
One(h, v) == one' = [one EXCEPT ![h] = v] /\ UNCHANGED <<two, cls>>
Two(h, v) == two' = [two EXCEPT ![h] = v] /\ UNCHANGED <<one, cls>>
Cls(h, v) == cls' = [cls EXCEPT ![h] = v] /\ UNCHANGED <<one, two>>
Same == UNCHANGED <<one, two, cls>>
Reset == Is("reset") /\ one' = Empty /\ two' = Empty /\ cls' = Empty /\ State
\* creating: refused on a handle in use, for sizes that are not positive, without source and without memory
Make1(ok, v) == LET good == ok /\ one[H] = Nil IN /\ Chk("created", good /\ E.fault = 0, E.ok) /\ (IF good /\ E.fault = 0 THEN One(H, v) ELSE Same)
Init1 == Is("init1") /\ Make1(E.n > 0, Fill(E.t, E.n, As(E.ft, E.v))) /\ State
From1 == Is("from1") /\ Make1(E.n > 0 /\ ~E.null, MapSeq(SubSeq(E.src, 1, E.n), LAMBDA q: Conv(E.ft, E.t, q))) /\ State
Copy1 == Is("copy1") /\ Make1(one[G] # Nil, IF one[G] = Nil THEN <<>> ELSE MapSeq(one[G], LAMBDA q: As(E.t, q))) /\ State
Set1 == Is("set1") /\ one[H] # Nil /\ One(H, [one[H] EXCEPT ![E.i] = As(E.t, E.v)]) /\ State
Rel1 == Is("rel1") /\ One(H, Nil) /\ State
Batch1 == Is("batch1") /\ one' = [h \in HS |-> IF h[1] = E.t /\ In(h[2], E.hs) THEN Nil ELSE one[h]] /\ UNCHANGED <<two, cls>> /\ Ok("first handle emptied", E.empty) /\ State
RECURSIVE Rows(_, _, _)
Rows(s, r, c) == IF r = 0 THEN <<>> ELSE <<SubSeq(s, 1, c)>> \o Rows(SubSeq(s, c + 1, Len(s)), r - 1, c)
Make2(ok, v) == LET good == ok /\ two[H] = Nil IN /\ Chk("created", good /\ E.fault = 0, E.ok) /\ (IF good /\ E.fault = 0 THEN Two(H, v) ELSE Same)
Init2 == Is("init2") /\ Make2(E.r > 0 /\ E.c > 0, Fill2(E.t, E.r, E.c, As(E.ft, E.v))) /\ State
From2 == Is("from2") /\ Make2(E.r > 0 /\ E.c > 0 /\ ~E.null, IF E.r > 0 /\ E.c > 0 THEN Rows(MapSeq(E.src, LAMBDA q: Conv(E.ft, E.t, q)), E.r, E.c) ELSE <<>>) /\ State
Copy2 == Is("copy2") /\ Make2(two[G] # Nil, IF two[G] = Nil THEN <<>> ELSE MapSeq(two[G], LAMBDA w: MapSeq(w, LAMBDA q: As(E.t, q)))) /\ State
\* a ragged array; only on empty handles
Rag == /\ Is("rag") /\ two[H] = Nil
       /\ LET src == MapSeq(E.src, LAMBDA q: As(E.ft, q))   good == ~E.null /\ src[1] > 3   rows == RagRows(Tail(src), src[1] \div 4)
          IN /\ Chk("created", good /\ E.fault = 0, E.ok)
             /\ IF E.ok THEN Two(H, MapSeq(rows, LAMBDA w: MapSeq(w, LAMBDA q: As(E.t, q)))) /\ Chk("rows and columns", <<Len(rows), RagCols(rows)>>, <<E.r, E.c>>) ELSE Same
       /\ State
Set2 == Is("set2") /\ two[H] # Nil /\ Two(H, [two[H] EXCEPT ![E.i][E.j] = As(E.t, E.v)]) /\ State
Rel2 == Is("rel2") /\ Two(H, Nil) /\ State
Batch2 == Is("batch2") /\ two' = [h \in HS |-> IF h[1] = E.t /\ In(h[2], E.hs) THEN Nil ELSE two[h]] /\ UNCHANGED <<one, cls>> /\ Ok("first handle emptied", E.empty) /\ State
\* written as text: elements in quarters read back by the driver
Text1 == Is("text1") /\ Same /\ one[H] # Nil /\ Chk("text", MapSeq(one[H], LAMBDA q: <<q>>), E.rows) /\ State
Text2 == Is("text2") /\ Same /\ two[H] # Nil /\ Chk("text", MapSeq(two[H], LAMBDA w: SubSeq(w, 1, E.c)), E.rows) /\ State
\* the array class
New == Is("new") /\ Chk("created", E.r > 0 /\ E.c > 0, E.ok) /\ (IF E.r > 0 /\ E.c > 0 THEN Cls(H, Fill2(E.t, E.r, E.c, E.v)) ELSE Same) /\ State
Shape(v) == IF v = Nil THEN <<0, 0>> ELSE <<Len(v), Len(v[1])>>
CCopy == Is("ccopy") /\ G[1] = H[1] /\ Cls(H, cls[G]) /\ State           \* assignment or copy construction
CMove == Is("cmove") /\ G[1] = H[1] /\ H # G /\ cls' = [cls EXCEPT ![H] = cls[G], ![G] = IF E.ctor THEN Nil ELSE cls[H]] /\ UNCHANGED <<one, two>> /\ State
CSelf == Is("cself") /\ Same /\ State
CSwap == Is("cswap") /\ G[1] = H[1] /\ cls' = [cls EXCEPT ![H] = cls[G], ![G] = cls[H]] /\ UNCHANGED <<one, two>> /\ State
CSet == Is("cset") /\ cls[H] # Nil /\ Cls(H, [cls[H] EXCEPT ![E.i][E.j] = E.v]) /\ State
CDel == Is("cdel") /\ Cls(H, Nil) /\ State
CShape == Is("cshape") /\ Same /\ Chk("shape", Shape(cls[H]), <<E.r, E.c>>) /\ State
\* lists
Value == Is("value") /\ Same /\ Chk("contains", In(E.v, E.s), E.ok) /\ State
Remove == Is("remove") /\ Same /\ Chk("removed", Removed(E.v, E.s), E.out) /\ State
Next == Reset \/ Init1 \/ From1 \/ Copy1 \/ Set1 \/ Rel1 \/ Batch1 \/ Init2 \/ From2 \/ Copy2 \/ Rag \/ Set2 \/ Rel2 \/ Batch2 \/ Text1 \/ Text2
        \/ New \/ CCopy \/ CMove \/ CSelf \/ CSwap \/ CSet \/ CDel \/ CShape \/ Value \/ Remove
Spec == Init /\ [][Next]_vars
=============================================================================
