------------------------------- MODULE Merge --------------------------------
(* Running a handler made of several: each function is called once, in order, with the data, they run
   side by side, and the whole is done when all are; an error of one is an error of the whole. *)
EXTENDS Naturals, Sequences, FiniteSets

(* kinds of functions: ends at once / waits for its gate(s) / raises at once / raises after its gate *)
FKinds == {"sync", "now", "gate", "gate2", "raise", "araise", "gate_raise", "acallable"}
Gates(k) == CASE k \in {"gate", "gate_raise"} -> 1 [] k = "gate2" -> 2 [] OTHER -> 0
Raises(k) == k \in {"raise", "araise", "gate_raise"}

(* state of a call: per function the gates still closed, the set of those that are through *)
Start(fs) == [fs |-> fs, left |-> [i \in 1..Len(fs) |-> Gates(fs[i])], over |-> FALSE]
Through(s) == {i \in 1..Len(s.fs) : s.left[i] = 0}
Failed(s) == {i \in Through(s) : Raises(s.fs[i])}
Finished(s) == {i \in Through(s) : ~Raises(s.fs[i])}
Outcome(s) == CASE Failed(s) # {} -> "error"
                [] Through(s) = 1..Len(s.fs) -> "done"
                [] OTHER -> "running"
Open(s, i) == [s EXCEPT !.left[i] = @ - 1]
=============================================================================
