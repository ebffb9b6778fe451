------------------------------ MODULE MountGen ------------------------------
EXTENDS Mount, Json, TLC
CONSTANTS MaxTags, MaxSock, MaxCount, Depth, Cfgs
VARIABLES cfg, loc, ps, hist

C(mode, tags, https, prefix, interval, max, retries, num, den) ==
  [mode |-> mode, tags |-> tags, known |-> IF mode = "alone" THEN {"own"} ELSE {"verif_app.a", "verif_app.b"}, https |-> https, prefix |-> prefix,
   interval |-> interval, max |-> max, retries |-> retries, num |-> num, den |-> den]
Small == { C("alone", <<"own">>, FALSE, "/reactpy/", 752, 60000, 150, 5, 4), C("alone", <<"own">>, TRUE, "/", 64, 80, 1, 3, 2),
           C("page", <<"verif_app.a", "verif_app.a">>, FALSE, "/a.b+c/", 128, 200, 2, 2, 1), C("page", <<"verif_app.a", "verif_app.unknown">>, TRUE, "/reactpy/", 100, 100, 0, 1, 1) }
Large == { C("page", <<"verif_app.b", "verif_app.a", "verif_app.unknown", "verif_app.a">>, FALSE, "/", 64, 1000, 3, 3, 2),
           C("page", <<"verif_app.a", "verif_app.b", "verif_app.b">>, TRUE, "/_r/~x/", 1000, 1200, 1, 5, 4),
           C("alone", <<"own">>, TRUE, "/deep/er/", 200, 300, 4, 5, 4) }
Locs == { [path |-> "/", qs |-> ""], [path |-> "/a%20b/%C3%A9", qs |-> "?x=1&y=%20z&path=no"], [path |-> "/a%20b/%C3%A9", qs |-> ""], [path |-> "/+", qs |-> "?qs=1+2&&k;l"] }
Ops == { [op |-> o, i |-> i] : o \in {"open", "close", "tick", "click"}, i \in 1..MaxTags } \cup { [op |-> "nav", path |-> l.path, qs |-> l.qs] : l \in Locs }
Fits(op) == /\ op.op # "nav" => op.i \in DOMAIN cfg.tags
            /\ May(cfg, ps, op)
            /\ op.op = "tick" => ps[op.i].conn.socks < MaxSock
            /\ op.op = "click" => ps[op.i].shown.n < MaxCount
            /\ op.op = "nav" => loc # [path |-> op.path, qs |-> op.qs]
Init == \E c \in (IF Cfgs = "small" THEN Small ELSE Large), l \in Locs : cfg = c /\ loc = l /\ ps = Loaded(c, l) /\ hist = <<[cfg |-> c, loc |-> l]>>
Step(op) == /\ ps' = Page(cfg, ps, op) /\ loc' = (IF op.op = "nav" THEN [path |-> op.path, qs |-> op.qs] ELSE loc)
            /\ hist' = Append(hist, [op |-> op, seen |-> Saw(cfg, ps, op)]) /\ UNCHANGED cfg
Next == \E op \in Ops : Fits(op) /\ Step(op) /\ PrintT("HIST " \o ToJson(hist'))
Weight(op) == op.op = "close" => (IF \A i \in DOMAIN ps : ps[i].conn.ever THEN Len(hist) % 2 = 0 ELSE Len(hist) % 7 = 0)
NextSim == \E op \in Ops : Fits(op) /\ Weight(op) /\ Step(op) /\ (Len(hist') = Depth => PrintT("HIST " \o ToJson(hist')))
View == <<cfg, loc, [i \in DOMAIN ps |-> <<ps[i].conn.phase, ps[i].conn.ever, ps[i].conn.tries, ps[i].conn.socks, Len(ps[i].conn.box), ps[i].shown, ps[i].at, ps[i].live>>]>>
Sound == Right(cfg, ps) /\ \A op \in Ops : Fits(op) => Apart(cfg, ps, op)
=============================================================================
