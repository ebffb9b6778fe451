----------------------------- MODULE SessionGen -----------------------------
EXTENDS Session, Json
CONSTANTS MaxCount, MaxGen, Depth
VARIABLES st, hist
Ops == {<<o, s, p, l>> : o \in {"dial", "open"}, s \in Slots, p \in Paths, l \in Locs}
       \cup {<<o, s, "", 0>> : o \in {"connect", "inc", "flood", "push", "cut", "boom", "gone", "odd", "garbage", "bytes", "leave", "kill"}, s \in Slots}
Init == st = Start /\ hist = << [op |-> <<"start", 0, "", 0>>, seen |-> Start] >>
Fits(op) == /\ Can(st, op)
            /\ op[1] \in {"dial", "open"} => st[op[2]].gen < MaxGen
            /\ op[1] \in {"inc", "push", "flood"} => st[op[2]].count < MaxCount
Step(op) == st' = Do(st, op) /\ hist' = Append(hist, [op |-> op, seen |-> st'])
Next == \E op \in Ops : Fits(op) /\ Step(op) /\ PrintT("HIST " \o ToJson(hist'))
NextSim == \E op \in Ops : /\ Fits(op) /\ Step(op)
                           /\ (Len(hist') = Depth => PrintT("HIST " \o ToJson(hist')))
View == st
(* an operation on a session leaves the others alone; whoever is mounted has been mounted once *)
Isolated == [][\A s \in Slots : (hist'[Len(hist')].op[2] # s) => st'[s] = st[s]]_<<st, hist>>
Sound == \A s \in Slots : LET x == st[s] IN
           /\ x.unmounts <= x.mounts /\ x.mounts <= 1
           /\ x.phase = "open" => x.mounts = 1 /\ x.unmounts = 0
           /\ x.phase \in {"closed", "dead"} => x.unmounts = x.mounts
           /\ x.phase \in {"none", "dialing"} => x.mounts = 0
=============================================================================
