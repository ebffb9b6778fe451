------------------------------ MODULE ServeGen ------------------------------
EXTENDS Serve, Json, TLC
CONSTANTS MaxU, MaxM, Depth
VARIABLES st, hist
Ops == {<<o, 0>> : o \in {"update", "burst", "sent", "msg", "msgs", "send_fails", "recv_fails", "render_fails", "cancel"}}
       \cup {<<o, i>> : o \in {"delivered", "deliver_fails"}, i \in 1..MaxM}
Init == st = Start /\ hist = << [op |-> <<"start", 0>>, seen |-> Seen(Start)] >>
Fits(op) == /\ Can(st, op)
            /\ op[1] = "update" => st.ready < MaxU
            /\ op[1] = "burst" => st.ready + 1 < MaxU
            /\ op[1] = "msg" => st.msgs < MaxM
            /\ op[1] = "msgs" => st.msgs + 1 < MaxM
Step(op) == st' = Do(st, op) /\ hist' = Append(hist, [op |-> op, seen |-> Seen(st')])
Next == \E op \in Ops : Fits(op) /\ Step(op) /\ PrintT("HIST " \o ToJson(hist'))
NextSim == \E op \in Ops : /\ Fits(op) /\ Step(op)
                           /\ (op[1] \in {"send_fails", "recv_fails", "render_fails", "cancel", "deliver_fails"} => Len(hist) > Depth - 3)
                           /\ (Len(hist') = Depth \/ st'.over # "no" => PrintT("HIST " \o ToJson(hist')))
View == st
(* one at a time, in order, nothing held back that could be sent *)
Sound == /\ st.begun <= st.ready
         /\ (st.over = "no" /\ ~st.sending => st.begun = st.ready)
         /\ (st.over # "no" => st.busy = {} /\ ~st.sending)
=============================================================================
