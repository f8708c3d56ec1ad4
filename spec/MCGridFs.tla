------------------------------ MODULE MCGridFs ------------------------------
(* How an array is stored, step by step, with failures of the server at any step: the old files are removed one by
   one, then the file is written in up to four attempts; an attempt that fails is cleaned up.  Whatever fails, the
   outcome is one GridFs allows, and a reader between any two steps never sees a torn file. *)
EXTENDS GridFs, TLC
CONSTANTS MaxFaults, Torn, Cleanup, CheckRemove
VARIABLES fs, old, pc, tries, n, F, res
vars == <<fs, old, pc, tries, n, F, res>>
St == "d/s"
Mk(id, name, d, k) == [st |-> St, id |-> id, name |-> name, meta |-> <<<<"k", k>>>>, data |-> d]
Opts == <<<<"k", "v">>>>
Base == {Mk(1, "f", "old1", "v"), Mk(2, "f", "old2", "v"), Mk(3, "f", "other", "w"), Mk(4, "g", "other", "v")}
NoF == [find |-> 0, write |-> 0, save |-> 0, remove |-> 0]
Total == F.find + F.write + F.save + F.remove
Init == /\ old \in SUBSET Base /\ fs = old /\ pc = "list" /\ tries = 0 /\ n = 10 /\ F = NoF /\ res = "none"
M == Matching(fs, St, "f", Opts)
Fault(k) == Total < MaxFaults /\ F' = [F EXCEPT ![k] = @ + 1]
Fail == IF CheckRemove THEN pc' = "done" /\ res' = "no" ELSE pc' = "write" /\ res' = res
List == /\ pc = "list"
        /\             \/ M = {} /\ pc' = "write" /\ UNCHANGED <<fs, old, tries, n, F, res>>
                       \/ \E f \in M: fs' = fs \ {f} /\ UNCHANGED <<old, pc, tries, n, F, res>>
                       \/ Fault("find") /\ Fail /\ UNCHANGED <<fs, old, tries, n>>
                       \/ M # {} /\ Fault("remove") /\ Fail /\ UNCHANGED <<fs, old, tries, n>>
New(d) == Mk(n, "f", d, "v")
Again == IF tries < Retries THEN pc' = "write" /\ tries' = tries + 1 /\ res' = res ELSE pc' = "done" /\ res' = "no" /\ tries' = tries
Write == /\ pc = "write"
         /\              \/ pc' = "save" /\ UNCHANGED <<fs, old, tries, n, F, res>>
                         \/ Fault("write") /\ pc' = "clean" /\ fs' = (IF Torn THEN fs \cup {New("torn")} ELSE fs) /\ UNCHANGED <<old, tries, n, res>>
Save == /\ pc = "save"
        /\             \/ fs' = fs \cup {New("new")} /\ pc' = "done" /\ res' = "yes" /\ UNCHANGED <<old, tries, n, F>>
                       \/ Fault("save") /\ pc' = "clean" /\ fs' \in {fs, fs \cup {New("new")}} /\ UNCHANGED <<old, tries, n, res>>
Clean == /\ pc = "clean" /\ n' = n + 1
         /\ \/ fs' = (IF Cleanup THEN {f \in fs: f.id # n} ELSE fs) /\ Again /\ UNCHANGED <<old, F>>
            \/ Fault("remove") /\ Again /\ UNCHANGED <<fs, old>>
Next == List \/ Write \/ Save \/ Clean \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Good == pc = "done" => Replace(old, fs, St, "f", Opts, Opts, "new", res = "yes", F.find, F.write, F.save, F.remove)
NeverTorn == \A f \in fs: f.data # "torn"
LatestWins == (pc = "done" /\ res = "yes") => \A f \in Matching(fs, St, "f", Opts): f.data = "new"
Done == <>(pc = "done")
=============================================================================
