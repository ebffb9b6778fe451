----------------------------- MODULE ImportedGen ------------------------------
EXTENDS Imported, TLC, Json, Randomization
CONSTANTS Keys, Depth, Srcs, Names, KidKinds, Binds  \* Binds: whether modules bind themselves, or what the page has for those that don't
VARIABLES cfg, st, hist, ok
V(k) == k \o ToString(Len(hist))
Has(k) == \E i \in DOMAIN st.row : st.row[i].key = k
Elements == { [key |-> k, c |-> [src |-> s, name |-> n, kid |-> kid, v |-> V(k)], st |-> "loading", nest |-> "none"] : k \in Keys, s \in Srcs, n \in Names, kid \in KidKinds }
Puts == { [op |-> "put", e |-> e, front |-> FALSE] : e \in Elements } \cup { [op |-> "put", e |-> e, front |-> TRUE] : e \in { e \in Elements : st.row # <<>> /\ ~Has(e.key) } }
Args == {"event", "number", "text", "empty", "yes", "no", "null", "undefined", "list", "zero"}
ArgLists == {<<>>} \cup { <<a>> : a \in Args } \cup { <<"event", a>> : a \in Args } \cup { <<a, "text">> : a \in Args }
Bound == { i \in DOMAIN st.row : st.row[i].st = "bound" /\ ~Lost(st.row[i].c) }
Uses == { [op |-> "say", key |-> st.row[i].key, v |-> st.row[i].c.v, nested |-> n] : i \in Bound, n \in BOOLEAN }
        \cup { [op |-> "event", key |-> st.row[i].key, v |-> st.row[i].c.v, nested |-> n, args |-> as, sent |-> [j \in DOMAIN as |-> Sent(as[j])]] : i \in Bound, n \in BOOLEAN, as \in ArgLists }
        \cup {[op |-> "custom"]}
Rest == { [op |-> "del", key |-> st.row[i].key] : i \in DOMAIN st.row }
       \cup { [op |-> "load", src |-> s, usable |-> Usable(cfg.bind)] : s \in st.asked } \cup { [op |-> "fail", src |-> s] : s \in { s \in st.asked : CanFail(st, s) } }
       \cup { u \in Uses : u.op = "custom" \/ ~u.nested \/ \E i \in DOMAIN st.row : st.row[i].key = u.key /\ (st.row[i].nest = "bound" \/ (st.row[i].c.kid \in {"same", "fragment"} /\ u.op = "event")) }
Ops == Puts \cup Rest
Seen(new) == [dom |-> Dom(new), binds |-> new.binds, unmounts |-> new.unmounts, row |-> new.row, live |-> [s \in Sources |-> Live(new, s)]]
Init == \E b \in Binds : cfg = [bind |-> b] /\ st = Begin /\ ok = TRUE /\ hist = <<[cfg |-> [bind |-> b]]>>
Step(op) == /\ st' = Do(st, op) /\ ok' = (ok /\ Balanced(st, st', op)) /\ hist' = Append(hist, [op |-> op, seen |-> Seen(st')]) /\ UNCHANGED cfg
(* at the end everything is removed, and whatever is still asked for arrives *)
RECURSIVE Finish(_, _)
Finish(s, h) ==
  LET op == CASE s.row # <<>> -> [op |-> "del", key |-> s.row[1].key]
              [] s.asked # {} -> [op |-> "load", src |-> CHOOSE x \in s.asked : TRUE, usable |-> Usable(cfg.bind)] [] OTHER -> [op |-> "none"]
  IN IF op.op = "none" THEN h ELSE Finish(Do(s, op), Append(h, [op |-> op, seen |-> Seen(Do(s, op))]))
Next == \E op \in { o \in Ops : o.op # "event" \/ o.args = <<"event">> \/ (Len(hist) <= 4 /\ cfg.bind = "own") } : Step(op) /\ PrintT("HIST " \o ToJson(Finish(st', hist')))
Some(n, S) == IF Cardinality(S) <= n THEN S ELSE RandomSubset(n, S)
(* few of the many, without looking at all *)
SomePuts == { [op |-> "put", e |-> [key |-> k, c |-> [src |-> s, name |-> n, kid |-> kid, v |-> V(k)], st |-> "loading", nest |-> "none"], front |-> f /\ st.row # <<>> /\ ~Has(k)] :
                k \in Some(1, Keys), s \in Some(2, Srcs), n \in {"Main"} \cup Some(1, Names), kid \in Some(1, KidKinds), f \in BOOLEAN }
SomeUses == { [op |-> "event", key |-> st.row[i].key, v |-> st.row[i].c.v, nested |-> n, args |-> as, sent |-> [j \in DOMAIN as |-> Sent(as[j])]] :
                i \in Bound, n \in BOOLEAN, as \in Some(2, ArgLists) }
Fits(u) == ~u.nested \/ \E i \in DOMAIN st.row : st.row[i].key = u.key /\ (st.row[i].nest = "bound" \/ (st.row[i].c.kid \in {"same", "fragment"} /\ u.op = "event"))
NextSim == \E kind \in {"put", "use", "rest"} : \E op \in Some(IF kind = "rest" THEN 2 ELSE 1, CASE kind = "put" -> SomePuts [] kind = "use" -> { u \in SomeUses : Fits(u) } [] OTHER -> { u \in Rest : u.op # "event" }) :
             Step(op) /\ (Len(hist') = Depth => PrintT("HIST " \o ToJson(Finish(st', hist'))))
View == <<cfg, [i \in DOMAIN st.row |-> [st.row[i] EXCEPT !.c.v = ""]], st.asked>>
Good == ok /\ Sound(st)
=============================================================================
