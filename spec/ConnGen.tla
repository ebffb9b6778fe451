------------------------------- MODULE ConnGen -------------------------------
EXTENDS Conn, Json, TLC
CONSTANTS Handl, MaxSend, MaxSock, Depth, Cfgs
VARIABLES cfg, st, hist

Types == {"layout-update", "custom"}
Configs == { [interval |-> 64, max |-> 300, retries |-> 3, num |-> 3, den |-> 2, mount |-> FALSE, https |-> FALSE, prefix |-> "/reactpy/", component |-> ""],
             [interval |-> 100, max |-> 100, retries |-> 1, num |-> 2, den |-> 1, mount |-> FALSE, https |-> FALSE, prefix |-> "/reactpy/", component |-> ""],
             [interval |-> 128, max |-> 250, retries |-> 6, num |-> 5, den |-> 4, mount |-> TRUE, https |-> TRUE, prefix |-> "/reactpy/", component |-> "pkg.mod.Comp"],
             [interval |-> 256, max |-> 300, retries |-> 2, num |-> 1, den |-> 1, mount |-> TRUE, https |-> FALSE, prefix |-> "/a/b/", component |-> ""] }
Locs == { [path |-> "/", qs |-> ""], [path |-> "/a%20b/c", qs |-> "?x=1&y=%26"], [path |-> "/a%20b/c", qs |-> ""], [path |-> "/d", qs |-> "?q"] }
Ops == {[op |-> "reg", h |-> h, type |-> t] : h \in Handl, t \in Types} \cup {[op |-> "unreg", h |-> h] : h \in Handl}
       \cup {[op |-> o] : o \in {"send", "open", "closing", "close", "tick", "wait"}}
       \cup {[op |-> "nav", path |-> l.path, qs |-> l.qs] : l \in Locs}
       \cup {[op |-> "recv", type |-> t] : t \in Types \cup {"", "unknown"}}
Fits(op) == /\ Can(st, op)
            /\ op.op = "send" => st.next <= MaxSend
            /\ op.op = "tick" => st.socks < MaxSock
            /\ op.op = "nav" => st.loc # [path |-> op.path, qs |-> op.qs]
            /\ cfg.mount => op.op \notin {"unreg", "send"} /\ (op.op = "reg" => op.h = 1 /\ op.type = "layout-update")
Init == \E c \in Configs : /\ (Cfgs = 0 \/ c.interval = Cfgs) /\ cfg = c /\ st = Start(c) /\ hist = <<[cfg |-> c]>>
Step(op) == st' = Do(cfg, st, op) /\ hist' = Append(hist, [op |-> op, seen |-> Seen(cfg, st, op)]) /\ UNCHANGED cfg
Next == \E op \in Ops : Fits(op) /\ Step(op) /\ PrintT("HIST " \o ToJson(hist'))
(* rarely the end of it all *)
Weight(op) == CASE op.op = "close" /\ st.phase = "connecting" /\ ~st.ever -> Len(hist) % 5 = 0 [] OTHER -> TRUE
NextSim == \E op \in Ops : Fits(op) /\ Weight(op) /\ Step(op) /\ (Len(hist') = Depth => PrintT("HIST " \o ToJson(hist')))
View == <<cfg, st.phase, st.ever, st.tries, st.delay, Len(st.box), st.regs, st.loc, st.socks, st.next > 1>>
Sound == /\ Order(st, st.out \o st.box)
         /\ (st.phase = "open" => st.box = <<>>)
         /\ st.tries <= cfg.retries /\ st.delay <= cfg.max
         /\ (st.phase = "idle" <=> st.socks = 0)
=============================================================================
