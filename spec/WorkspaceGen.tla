---------------------------- MODULE WorkspaceGen ----------------------------
EXTENDS Workspace, Sequences, TLC, Json
CONSTANTS MaxN, MaxCount, Depth
VARIABLES hist
Op(o) == hist' = Append(hist, [op |-> o, page |-> page', running |-> running', count |-> [i \in page' |-> count'[i]]])
GInit == Init /\ hist = <<>>
Step == \/ n < MaxN /\ Start /\ Op(<<"start", n + 1>>)
        \/ \E i \in page : Remove(i) /\ Op(<<"remove", i>>)
        \/ \E i \in page : count[i] < MaxCount /\ Click(i) /\ Op(<<"click", i>>)
GNext == Step /\ PrintT("HIST " \o ToJson(hist'))
GNextSim == Step /\ (Len(hist') = Depth => PrintT("HIST " \o ToJson(hist')))
View == Vars
=============================================================================
