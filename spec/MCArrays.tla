------------------------------ MODULE MCArrays ------------------------------
(* The way arrays are kept: handles name blocks of memory. Creating takes a block, assignment copies into a new block
   and releases the old one, moving exchanges blocks, any allocation may fail. Checked: every block in use belongs to
   exactly one handle, and seen through the handles the operations are those of ArrayTrace. *)
EXTENDS Arrays, TLC
CONSTANTS Handles, Values, Width, Ids
VARIABLES h, heap, op, s
Vals == UNION {[1..n -> Values]: n \in 1..Width}
Free == {i \in Ids: heap[i] = Nil}
See(x) == IF h[x] = 0 THEN Nil ELSE heap[h[x]]
Init == h = [x \in Handles |-> 0] /\ heap = [i \in Ids |-> Nil] /\ op = <<"none">> /\ s = <<>>
Take(x, v) == \E i \in Free: (\A j \in Free: i <= j) /\ heap' = [heap EXCEPT ![i] = v] /\ h' = [h EXCEPT ![x] = i]
Create(x) == \E v \in Vals: op' = <<"create", x, x, v>> /\ IF h[x] = 0 THEN Take(x, v) ELSE UNCHANGED <<h, heap>>
Fail(x) == op' = <<"same", x, x, Nil>> /\ UNCHANGED <<h, heap>>
CopyTo(x, y) == x # y /\ h[y] # 0 /\ h[x] = 0 /\ op' = <<"assign", x, y, Nil>> /\ Take(x, heap[h[y]])
Release(x) == op' = <<"release", x, x, Nil>> /\ h' = [h EXCEPT ![x] = 0] /\ heap' = IF h[x] = 0 THEN heap ELSE [heap EXCEPT ![h[x]] = Nil]
\* copy and swap: the copy takes a block, then the old one is released
Assign(x, y) ==
  /\ x # y /\ op' = <<"assign", x, y, Nil>>
  /\ IF h[y] = 0 THEN h' = [h EXCEPT ![x] = 0] /\ heap' = (IF h[x] = 0 THEN heap ELSE [heap EXCEPT ![h[x]] = Nil])
     ELSE \E i \in Free: /\ \A j \in Free: i <= j
                         /\ h' = [h EXCEPT ![x] = i]
                         /\ heap' = [k \in Ids |-> IF k = i THEN heap[h[y]] ELSE IF k = h[x] THEN Nil ELSE heap[k]]
Swap(x, y) == op' = <<"swap", x, y, Nil>> /\ h' = [h EXCEPT ![x] = h[y], ![y] = h[x]] /\ UNCHANGED heap
Write(x) == h[x] # 0 /\ \E i \in 1..Len(heap[h[x]]), v \in Values: heap' = [heap EXCEPT ![h[x]][i] = v] /\ op' = <<"write", x, i, v>> /\ UNCHANGED h
Next == \E x, y \in Handles: Create(x) \/ Fail(x) \/ CopyTo(x, y) \/ Release(x) \/ Assign(x, y) \/ Swap(x, y) \/ Write(x)
Spec == Init /\ [][Next /\ UNCHANGED s]_<<h, heap, op, s>>
Owned == \A i \in Ids: heap[i] # Nil <=> Cardinality({x \in Handles: h[x] = i}) = 1
Alone == \A x, y \in Handles: x # y /\ h[x] # 0 => h[x] # h[y]
Mem == Cardinality({i \in Ids: heap[i] # Nil}) = Cardinality({x \in Handles: See(x) # Nil})
Step == \A z \in Handles:
   See(z)' = CASE op'[1] = "create" -> IF z = op'[2] /\ See(z) = Nil THEN op'[4] ELSE See(z)
              [] op'[1] = "release" -> IF z = op'[2] THEN Nil ELSE See(z)
              [] op'[1] = "assign" -> IF z = op'[2] THEN See(op'[3]) ELSE See(z)
              [] op'[1] = "swap" -> IF z = op'[2] THEN See(op'[3]) ELSE IF z = op'[3] THEN See(op'[2]) ELSE See(z)
              [] op'[1] = "write" -> IF z = op'[2] THEN [See(z) EXCEPT ![op'[3]] = op'[4]] ELSE See(z)
              [] OTHER -> See(z)
Steps == [][Step]_<<h, heap, op>>
\* ------------------------------------------------------------- lists and ragged rows
ListInit == Init
ListNext == Len(s) < Width /\ (\E v \in Values: s' = Append(s, v)) /\ UNCHANGED <<h, heap, op>>
ListSpec == ListInit /\ [][ListNext]_<<h, heap, op, s>>
Occ(v, q) == Cardinality({i \in 1..Len(q): q[i] = v})
Removing == \A v \in Values: LET o == Removed(v, s) IN
   ~In(v, o) /\ Len(o) = Len(s) - Occ(v, s) /\ (~In(v, s) => o = s) /\ (\A w \in Values \ {v}: Occ(w, o) = Occ(w, s))
   /\ \A w \in Values \ {v}: Removed(w, o) = Removed(v, Removed(w, s))
=============================================================================
