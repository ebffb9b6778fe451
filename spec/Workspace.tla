----------------------------- MODULE Workspace ------------------------------
(* The PyScript components of a page.  Each is put into the page with a script of its own, which starts it.  When its
   element is removed from the page nobody is told; when the next one starts, those no longer there come to their end. *)
EXTENDS Naturals, FiniteSets
VARIABLES page, running, count, n

Vars == <<page, running, count, n>>
Init == page = {} /\ running = {} /\ count = [i \in {} |-> 0] /\ n = 0
Start == /\ n' = n + 1 /\ page' = page \cup {n'} /\ running' = page'
         /\ count' = [i \in DOMAIN count \cup {n'} |-> IF i = n' THEN 0 ELSE count[i]]
Remove(i) == i \in page /\ page' = page \ {i} /\ UNCHANGED <<running, count, n>>
Click(i) == i \in page /\ count' = [count EXCEPT ![i] = @ + 1] /\ UNCHANGED <<page, running, n>>

OnPageRuns == page \subseteq running
NothingElse == running \subseteq 1..n
=============================================================================
