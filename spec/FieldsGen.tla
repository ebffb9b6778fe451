----------------------------- MODULE FieldsGen ------------------------------
EXTENDS Fields, Json
CONSTANTS MaxEv, MaxUp, MaxSess, Depth, Cfgs
VARIABLES cfg, st, hist, ok
C(mode, srv, deb) == [mode |-> mode, srv |-> srv, deb |-> deb, thr |-> FALSE, empty |-> FALSE, bad |-> FALSE, tags |-> [i \in DOMAIN srv |-> "input"], keys |-> FALSE]
Small == { C("form", <<"mark", "copy">>, FALSE), C("form", <<"echo">>, TRUE), C("parts", <<"mark", "refuse">>, FALSE), [C("form", <<"mark">>, FALSE) EXCEPT !.thr = TRUE],
           [C("linked", <<"echo", "echo">>, FALSE) EXCEPT !.bad = TRUE] }
Srvs == {<<"copy", "mark", "echo">>, <<"fix", "refuse", "copy">>, <<"echo">>, <<"mark", "mark">>}
Large == { [mode |-> m, srv |-> s, deb |-> d = 1, thr |-> d = 2, empty |-> e, bad |-> b, keys |-> k, tags |-> [i \in DOMAIN s |-> IF (i + Len(s)) % 3 = 0 THEN "textarea" ELSE IF (i + Len(s)) % 3 = 1 THEN "input" ELSE "select"]]
           : m \in {"form", "parts", "linked"}, s \in Srvs, d \in 0..2, e \in BOOLEAN, b \in BOOLEAN, k \in BOOLEAN }
Usual(c) == /\ c.mode = "parts" => \A i \in DOMAIN c.srv : c.srv[i] # "copy"
            /\ c.mode # "linked" => ~c.empty /\ ~c.bad
            /\ c.mode = "linked" => \A i \in DOMAIN c.tags : c.tags[i] # ""
Fix(c) == [c EXCEPT !.srv = IF c.mode = "parts" THEN [i \in DOMAIN @ |-> IF @[i] = "copy" THEN "mark" ELSE @[i]] ELSE @,
                    !.deb = @ /\ c.mode # "linked", !.thr = @ /\ c.mode # "linked",
                    !.tags = IF c.mode = "linked" THEN [i \in DOMAIN @ |-> "input"] ELSE @]
Ops == UNION { {[op |-> "type", i |-> i, v |-> v] : v \in {"u", "x", "s", ""}} \cup {[op |-> "push", i |-> i, v |-> "p"], [op |-> "toggle", i |-> i]} : i \in 1..3 }
       \cup { [op |-> o] : o \in {"adv", "serve", "rush", "deliver", "break", "up"} }
Full(op) == IF op.op = "type" /\ op.v = "u" THEN [op EXCEPT !.v = "u" \o ToString(st.ids + Len(st.held) + 1)] ELSE op
Fits(op) == /\ op.op \in {"type", "push", "toggle"} => op.i <= N(cfg)
            /\ Able(cfg, st, Full(op))
            /\ op.op = "type" => st.ids + Len(st.held) < MaxEv /\ (op.v = "" => cfg.mode = "linked") /\ (op.v \in {"x", "s"} => cfg.mode = "linked" \/ Depth # 99)
            /\ op.op \in {"push", "toggle", "serve"} => Len(st.ups) < MaxUp
            /\ op.op = "toggle" => (Depth = 99 => op.i = 1)
            /\ op.op = "up" => st.sess < MaxSess
            /\ op.op = "break" => st.sess < MaxSess
Init == \E c \in (IF Cfgs = "small" THEN Small ELSE {Fix(c) : c \in {x \in Large : x.mode = "linked" \/ (~x.empty /\ ~x.bad)}}) :
          cfg = c /\ st = Begin(c) /\ hist = <<[cfg |-> c]>> /\ ok = TRUE
Step(op) == /\ st' = Act(cfg, st, op) /\ hist' = Append(hist, [op |-> op, seen |-> Look(cfg, st, op)])
            /\ ok' = (ok /\ Kept(cfg, st, op)) /\ UNCHANGED cfg
(* at the end all is told and displayed, and what the server says then shows up everywhere *)
Stale(s) == { i \in DOMAIN s.text : s.on[i] /\ s.text[i] # s.vals[i] }
RECURSIVE Finish(_, _)
Finish(s, h) ==
  LET op == CASE s.phase = "down" -> [op |-> "up"]
              [] s.held # <<>> -> [op |-> "adv"] [] s.wire # <<>> -> [op |-> "serve"] [] s.ups # <<>> -> [op |-> "deliver"]
              [] Stale(s) # {} /\ cfg.mode # "linked" -> [op |-> "push", i |-> CHOOSE i \in Stale(s) : TRUE, v |-> "end" \o ToString(Len(h))]
              [] OTHER -> [op |-> "none"]
  IN IF op.op = "none" THEN h ELSE Finish(Act(cfg, s, op), Append(h, [op |-> op, seen |-> Look(cfg, s, op)]))
Next == \E op \in Ops : Fits(op) /\ Step(Full(op)) /\ PrintT("HIST " \o ToJson(Finish(st', hist')))
Weight(op) == CASE op.op = "break" -> Len(hist) % 3 = 0 [] op.op = "toggle" -> Len(hist) % 2 = 0 [] OTHER -> TRUE
NextSim == \E op \in Ops : Fits(op) /\ Weight(op) /\ Step(Full(op)) /\ (Len(hist') = Depth => PrintT("HIST " \o ToJson(Finish(st', hist'))))
Rank(i) == IF st.last[i] = 0 THEN <<0, 0>> ELSE <<st.to[i], st.last[i]>>
View == <<cfg, st.phase, st.sess, st.text, st.on, [i \in DOMAIN st.text |-> <<Rank(i), st.born[i]>>], st.held, st.cool, st.queue, st.wire, st.ups, st.ids, st.vals, st.vis, st.acks>>
Sure == ok /\ Agreed(cfg, st)
=============================================================================
