------------------------------ MODULE Session -------------------------------
(* Websocket sessions of the ASGI application.

   Every connection has a component of its own that starts afresh, is told the location of its own
   browser, sees only its own events, and is unmounted exactly once when the connection ends for
   whatever reason; no session is affected by another. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Slots, Paths, Locs

(* phase: none, dialing (the server has not yet said that the browser connects), open,
   dead (nothing is rendered any more but the browser is still there),
   wild (has been sent garbage; may have ended), closed *)
None == [phase |-> "none", path |-> "", loc |-> 0, count |-> 0, cut |-> FALSE, mounts |-> 0, unmounts |-> 0, gen |-> 0]
Start == [s \in Slots |-> None]

Good(p) == p # "unknown"

Dial(x, p, l) == [None EXCEPT !.phase = "dialing", !.path = p, !.loc = l, !.gen = x.gen + 1]
Connect(x) == IF Good(x.path) THEN [x EXCEPT !.phase = "open", !.mounts = 1] ELSE [x EXCEPT !.phase = "dead"]
(* n changes of the state, each of which is sent *)
Change(x, n) == CASE x.phase = "open" /\ x.cut -> [x EXCEPT !.phase = "dead", !.unmounts = 1]
                  [] x.phase = "open" -> [x EXCEPT !.count = @ + n]
                  [] OTHER -> x
Close(x) == [x EXCEPT !.phase = "closed", !.unmounts = x.mounts]

Do(st, op) ==
  LET s == op[2] x == st[s] IN
  CASE op[1] = "dial"    -> [st EXCEPT ![s] = Dial(x, op[3], op[4])]
    [] op[1] = "connect" -> [st EXCEPT ![s] = Connect(x)]
    [] op[1] = "open"    -> [st EXCEPT ![s] = Connect(Dial(x, op[3], op[4]))]
    [] op[1] = "inc"     -> [st EXCEPT ![s] = Change(x, 1)]
    [] op[1] = "flood"   -> [st EXCEPT ![s] = Change(x, 9)]
    [] op[1] = "push"    -> [st EXCEPT ![s] = Change(x, 1)]
    [] op[1] = "cut"     -> [st EXCEPT ![s].cut = TRUE]
    [] op[1] \in {"boom", "gone", "odd"} -> st     \* a handler that raises, an unknown target, an unknown type
    [] op[1] \in {"garbage", "bytes"} -> [st EXCEPT ![s].phase = "wild"]
    [] op[1] \in {"leave", "kill"} -> [st EXCEPT ![s] = Close(x)]      \* kill: the server stops the application

Can(st, op) ==
  LET p == st[op[2]].phase IN
  CASE op[1] \in {"dial", "open"} -> p \in {"none", "closed"}
    [] op[1] = "connect" -> p = "dialing"
    [] op[1] = "cut" -> p = "open" /\ ~st[op[2]].cut
    [] op[1] \in {"boom", "gone", "inc", "flood", "odd"} -> p \in {"open", "dead"}
    [] op[1] = "push" -> p = "open"
    [] op[1] \in {"garbage", "bytes"} -> p \in {"open", "dead"}
    [] op[1] = "kill" -> p \in {"dialing", "open", "dead", "wild"}
    [] op[1] = "leave" -> p \in {"open", "dead", "wild"}
=============================================================================
