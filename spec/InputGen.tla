------------------------------ MODULE InputGen ------------------------------
EXTENDS Input, Json
CONSTANTS MaxEv, MaxUp, Depth, Deltas
VARIABLES cfg, st, hist, ok
Cfgs == { [thr |-> t, deb |-> d, srv |-> s, value |-> v] : t \in {-1, 4}, d \in {-1, 3}, s \in {"echo", "upper", "ignore"}, v \in {"", "v"} }
        \cup { [thr |-> -1, deb |-> d, srv |-> "echo", value |-> "none"] : d \in {-1, 3} }
Ops == {[op |-> "type"], [op |-> "key", v |-> "key"], [op |-> "key", v |-> "enter"], [op |-> "handle"], [op |-> "render"], [op |-> "deliver"], [op |-> "paint"]}
       \cup {[op |-> "adv", d |-> d] : d \in Deltas} \cup {[op |-> "push", v |-> v] : v \in {"p", "q"}}
Full(op) == IF op.op = "type" THEN [op |-> "type", v |-> "u" \o ToString(Len(st.args) + 1)] ELSE op
Fits(op) == /\ Able(st, op)
            /\ op.op \in {"type", "key"} => Len(st.args) < MaxEv
            /\ op.op \in {"push", "render"} => Len(st.ups) < MaxUp
            /\ op.op = "push" => cfg.value # "none" /\ (Depth = 99 => op.v = "p")
            /\ op.op = "adv" => Unsent(st)
Init == \E c \in Cfgs : /\ (Depth = 99 => c.value = "" /\ c.srv # "echo" /\ c.thr = -1)
                        /\ cfg = c /\ st = Begin(c) /\ hist = <<[cfg |-> c]>> /\ ok = TRUE
Step(op) == /\ st' = Act(cfg, st, op) /\ hist' = Append(hist, [op |-> op, seen |-> Look(cfg, st, op)])
            /\ ok' = (ok /\ Kept(cfg, st, st', op)) /\ UNCHANGED cfg
(* at the end everything is handled, rendered and displayed *)
RECURSIVE Finish(_, _)
Finish(s, h) ==
  LET op == CASE Unsent(s) -> [op |-> "adv", d |-> 30] [] s.wire # <<>> -> [op |-> "handle"]
              [] s.last # [value |-> s.sval, ack |-> s.handled] -> [op |-> "render"]
              [] s.fresh -> [op |-> "paint"] [] s.ups # <<>> -> [op |-> "deliver"] [] OTHER -> [op |-> "none"]
  IN IF op.op = "none" THEN h ELSE Finish(Act(cfg, s, op), Append(h, [op |-> op, seen |-> Look(cfg, s, op)]))
Next == \E op \in Ops : Fits(op) /\ Step(Full(op)) /\ PrintT("HIST " \o ToJson(Finish(st', hist')))
NextSim == \E op \in Ops : Fits(op) /\ Step(Full(op)) /\ (Len(hist') = Depth => PrintT("HIST " \o ToJson(Finish(st', hist'))))
Rel(x) == IF x < 0 THEN -100 ELSE x - st.co.now
Ago(h) == IF st.co.w[h].last < 0 \/ st.co.now - st.co.w[h].last > 5 THEN 99 ELSE st.co.now - st.co.w[h].last
View == <<cfg, st.text, st.args, st.model, st.fresh, st.wire, st.sent, st.handled, st.sval, st.ups, st.last, [h \in {1, 2} |-> <<Rel(st.co.w[h].tdue), Rel(st.co.w[h].ddue), Ago(h)>>]>>
Sure == ok /\ Agreed(cfg, st) /\ Sound(st.co)
=============================================================================
