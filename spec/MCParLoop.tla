------------------------------ MODULE MCParLoop ------------------------------
(* Every orderly loop ends with the same memory under every distribution of its iterations and every interleaving of
   the workers.  A program gives each iteration a short list of steps on shared memory; what is written depends on the
   iteration and on what it read before. *)
EXTENDS ParLoop, TLC
CONSTANTS Iters, Workers, Locs, Len_
Steps == [k: {"r", "w", "a"}, x: 1..Locs]
Prog == UNION {[1..n -> Steps]: n \in 0..Len_}
VARIABLES prog, who, mem, seen, pc
vars == <<prog, who, mem, seen, pc>>
M == 1..Iters
Us(p, d, k, x) == {d[i]: i \in {j \in M: \E s \in 1..Len(p[j]): p[j][s].k = k /\ p[j][s].x = x}}
Use(p, d, x) == LET r == Us(p, d, "r", x) w == Us(p, d, "w", x) a == Us(p, d, "a", x)
                IN [r |-> Cardinality(r), w |-> Cardinality(w), u |-> Cardinality(r \cup w), a |-> Cardinality(a), ua |-> Cardinality(r \cup w \cup a)]
AllOrderly(p, d) == \A x \in 1..Locs: Orderly(Use(p, d, x))
Mem0 == [x \in 1..Locs |-> x]
Do(s, i, m, q) == \* one step of iteration i on memory m, having seen q
  IF s.k = "r" THEN <<m, m[s.x] + q>> ELSE IF s.k = "w" THEN <<[m EXCEPT ![s.x] = 10 * i + q], q>> ELSE <<[m EXCEPT ![s.x] = @ + i + q], q>>
RECURSIVE One(_, _, _, _, _)
One(p, i, n, m, q) == IF n > Len(p[i]) THEN m ELSE LET y == Do(p[i][n], i, m, q) IN One(p, i, n + 1, y[1], y[2])
RECURSIVE Alone(_, _, _)
Alone(p, i, m) == IF i > Iters THEN m ELSE Alone(p, i + 1, One(p, i, 1, m, 0))
Init == /\ prog \in [M -> Prog] /\ who \in [M -> 1..Workers] /\ AllOrderly(prog, who)
        /\ mem = Mem0 /\ seen = [i \in M |-> 0] /\ pc = [i \in M |-> 1]
Ready(i) == pc[i] <= Len(prog[i]) /\ \A j \in 1..(i - 1): who[j] = who[i] => pc[j] > Len(prog[j])  \* a worker takes its iterations in order
Go(i) == /\ Ready(i) /\ LET y == Do(prog[i][pc[i]], i, mem, seen[i]) IN mem' = y[1] /\ seen' = [seen EXCEPT ![i] = y[2]]
         /\ pc' = [pc EXCEPT ![i] = @ + 1] /\ UNCHANGED <<prog, who>>
Next == \E i \in M: Go(i)
Spec == Init /\ [][Next]_vars
Done == \A i \in M: pc[i] > Len(prog[i])
SameAsAlone == Done => mem = Alone(prog, 1, Mem0)
==============================================================================
