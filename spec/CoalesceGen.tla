---------------------------- MODULE CoalesceGen -----------------------------
EXTENDS Coalesce, Json, TLC
CONSTANTS MaxEv, Depth, Deltas
VARIABLES st, a, hist

H(t, d, p, s) == [thr |-> t, deb |-> d, prevent |-> p, stop |-> s]
Sets == { <<H(4, -1, TRUE, FALSE), H(-1, -1, FALSE, TRUE)>>, <<H(-1, 3, TRUE, TRUE), H(-1, -1, FALSE, FALSE)>>,
          <<H(4, 3, FALSE, FALSE), H(3, -1, FALSE, FALSE)>>, <<H(3, 5, FALSE, TRUE), H(-1, 2, FALSE, FALSE)>>, <<H(0, 0, FALSE, FALSE), H(5, 0, TRUE, FALSE)>> }
Tags == {"div", "input", "select", "textarea"}
Ops == {[op |-> "ev", h |-> h] : h \in {1, 2}} \cup {[op |-> o, d |-> d] : o \in {"adv", "late"}, d \in Deltas} \cup {[op |-> "show", hs |-> hs] : hs \in Sets} \cup {[op |-> "again"]}
Full(op) == CASE op.op = "ev" -> [op |-> "ev", h |-> op.h, a |-> a] [] op.op = "again" -> [op |-> "show", hs |-> st.hs] [] OTHER -> op
Fits(op) == Can(st, Full(op)) /\ (op.op = "ev" => a <= MaxEv)
            /\ (op.op = "late" => Timers(st) # {} /\ \A x \in Timers(st) : x[1] > st.now)
            /\ (op.op = "show" => Depth < 99 /\ (op.hs = st.hs \/ Len(hist) % 7 = 3))
Init == \E t \in (IF Depth < 99 THEN Tags ELSE {"div", "input"}), hs \in Sets : st = Start(t, hs) /\ a = 1 /\ hist = <<[tag |-> t, hs |-> hs]>>
Step(op) == st' = Do(st, op) /\ a' = (IF op.op = "ev" THEN a + 1 ELSE a) /\ hist' = Append(hist, [op |-> op, seen |-> Seen(st, op)])
Drain(s) == LET op == [op |-> "adv", d |-> 40] IN [op |-> op, seen |-> Seen(s, op)]
Next == \E op \in Ops : Fits(op) /\ Step(Full(op)) /\ PrintT("HIST " \o ToJson(Append(hist', Drain(st'))))
NextSim == \E op \in Ops : Fits(op) /\ Step(Full(op)) /\ (Len(hist') = Depth => PrintT("HIST " \o ToJson(Append(hist', Drain(st')))))
Rel(x) == IF x < 0 THEN -100 ELSE Max(x - st.now, -3)
Ago(h) == IF st.w[h].last < 0 \/ st.now - st.w[h].last > 5 THEN 99 ELSE st.now - st.w[h].last
View == <<st.tag, st.hs, a, [h \in {1, 2} |-> <<Rel(st.w[h].tdue), Rel(st.w[h].ddue), Ago(h), st.w[h].did > st.w[h].tid>>]>>
IsSound == Sound(st)
=============================================================================
