------------------------------ MODULE Ownership ------------------------------
(* Who gives back what.  A raster owns the memory of its values; the memory of its positions is its own or lent by another
   raster, which then has to live longer; its subsets own theirs; a mask is never owned.  Reading takes files and memory
   as it goes and may break off after any of them. *)
EXTENDS Naturals, FiniteSets
CONSTANTS Objs, Blocks, Handles
VARIABLES heap,    \* blocks taken
          open,    \* files, queries and connections open
          obj,     \* object -> [live, vals, pos, own, from, subs]
          work     \* what an operation under way has taken: [by, blocks, handles]
vars == <<heap, open, obj, work>>
Gone == [live |-> FALSE, vals |-> {}, pos |-> {}, own |-> FALSE, from |-> {}, subs |-> {}]
Idle == [by |-> {}, b |-> {}, h |-> {}]
Init == heap = {} /\ open = {} /\ obj = [o \in Objs |-> Gone] /\ work = Idle
Owned(o) == (obj[o]).vals \cup (IF (obj[o]).own THEN (obj[o]).pos ELSE {}) \cup (obj[o]).subs
Quiet == work = Idle
Lends(o) == \E p \in Objs: o \in (obj[p]).from
Make(o) == Quiet /\ ~(obj[o]).live /\ obj' = [obj EXCEPT ![o] = [Gone EXCEPT !.live = TRUE]] /\ UNCHANGED <<heap, open, work>>
\* an operation that takes what it needs step by step
Begin(o) == Quiet /\ (obj[o]).live /\ work' = [Idle EXCEPT !.by = {o}] /\ UNCHANGED <<heap, open, obj>>
Take == ~Quiet /\ \E b \in Blocks \ heap: heap' = heap \cup {b} /\ work' = [work EXCEPT !.b = @ \cup {b}] /\ UNCHANGED <<open, obj>>
OpenOne == ~Quiet /\ \E h \in Handles \ open: open' = open \cup {h} /\ work' = [work EXCEPT !.h = @ \cup {h}] /\ UNCHANGED <<heap, obj>>
\* it succeeds: the object keeps some of it in place of what it held, the rest is scratch space; files are closed in any case
Done(o) == /\ work.by = {o} /\ ~Lends(o)
           /\ \E v, p \in SUBSET work.b: /\ v # {} /\ v \cap p = {}
                                         /\ obj' = [obj EXCEPT ![o] = [live |-> TRUE, vals |-> v, pos |-> p, own |-> p # {}, from |-> {}, subs |-> {}]]
                                         /\ heap' = (heap \ (work.b \cup Owned(o))) \cup v \cup p
           /\ open' = open \ work.h /\ work' = Idle
\* it fails: everything taken goes back, the object keeps what it held
Fail == ~Quiet /\ heap' = heap \ work.b /\ open' = open \ work.h /\ work' = Idle /\ UNCHANGED obj
Lend(o, p) == /\ Quiet /\ o # p /\ (obj[o]).live /\ (obj[p]).live /\ (obj[p]).pos # {} /\ (obj[p]).own /\ (obj[o]).pos = {}
              /\ obj' = [obj EXCEPT ![o].pos = (obj[p]).pos, ![o].from = {p}] /\ UNCHANGED <<heap, open, work>>
Divide(o) == /\ Quiet /\ (obj[o]).vals # {} /\ (obj[o]).subs = {}
             /\ \E b \in Blocks \ heap: obj' = [obj EXCEPT ![o].subs = {b}] /\ heap' = heap \cup {b} /\ UNCHANGED <<open, work>>
Join(o) == Quiet /\ obj' = [obj EXCEPT ![o].subs = {}] /\ heap' = heap \ (obj[o]).subs /\ UNCHANGED <<open, work>>
Delete(o) == Quiet /\ (obj[o]).live /\ ~Lends(o) /\ heap' = heap \ Owned(o) /\ obj' = [obj EXCEPT ![o] = Gone] /\ UNCHANGED <<open, work>>
Next == Take \/ OpenOne \/ Fail \/ (\E o \in Objs: Make(o) \/ Begin(o) \/ Done(o) \/ Divide(o) \/ Join(o) \/ Delete(o) \/ \E p \in Objs: Lend(o, p))
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------------ laws
OneOwner == \A o, p \in Objs: o # p => Owned(o) \cap Owned(p) = {}
NoneLost == heap = work.b \cup UNION {Owned(o): o \in Objs} /\ open = work.h
InUse == \A o \in Objs: (obj[o]).vals \cup (obj[o]).pos \cup (obj[o]).subs \subseteq heap
NothingLeft == (Quiet /\ \A o \in Objs: ~(obj[o]).live) => heap = {} /\ open = {}
=============================================================================
