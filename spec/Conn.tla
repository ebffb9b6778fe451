-------------------------------- MODULE Conn --------------------------------
(* The browser's connection: one websocket at a time, tried again with growing delays, and what is
   sent through it.

   cfg: interval, max, retries, num/den (the delay grows by this factor).  Handlers are registered for
   types of messages; the connection is opened when the first one is. *)
EXTENDS Naturals, Sequences, FiniteSets

Start(cfg) == [phase |-> "idle",     \* idle, connecting, open, closing, waiting, dead
               ever |-> FALSE,       \* a connection was open at some time
               tries |-> 0,          \* attempts since
               delay |-> cfg.interval, due |-> 0,
               socks |-> 0,
               box |-> <<>>,         \* what could not be sent yet
               regs |-> <<>>,        \* <<handler, type>> in order
               loc |-> [path |-> "/", qs |-> ""],
               next |-> 1,           \* number of the next message
               out |-> <<>>]         \* everything that was sent

Min(a, b) == IF a < b THEN a ELSE b
Connect(st) == [st EXCEPT !.phase = "connecting", !.socks = @ + 1]

Do(cfg, st, op) ==
  CASE op.op = "reg" -> LET s == [st EXCEPT !.regs = Append(@, <<op.h, op.type>>)] IN IF st.phase = "idle" THEN Connect(s) ELSE s
    [] op.op = "unreg" -> [st EXCEPT !.regs = SelectSeq(@, LAMBDA r : r[1] # op.h)]
    [] op.op = "send" -> IF st.phase = "open" THEN [st EXCEPT !.out = Append(@, st.next), !.next = @ + 1]
                         ELSE [st EXCEPT !.box = Append(@, st.next), !.next = @ + 1]
    [] op.op = "open" -> [st EXCEPT !.phase = "open", !.ever = TRUE, !.tries = 0, !.delay = cfg.interval, !.out = @ \o st.box, !.box = <<>>]
    [] op.op = "closing" -> [st EXCEPT !.phase = "closing"]
    [] op.op = "close" -> IF ~st.ever \/ st.tries >= cfg.retries THEN [st EXCEPT !.phase = "dead"]
                          ELSE [st EXCEPT !.phase = "waiting", !.due = st.delay, !.tries = @ + 1, !.delay = Min((@ * cfg.num) \div cfg.den, cfg.max)]
    [] op.op = "tick" -> Connect(st)
    [] op.op = "wait" -> st  \* a long time passes: no further connection, neither beside an open one nor after all attempts
    [] op.op = "nav" -> [st EXCEPT !.loc = [path |-> op.path, qs |-> op.qs]]
    [] op.op = "recv" -> [st EXCEPT !.next = @ + 1]

Can(st, op) ==
  CASE op.op = "reg" -> \A i \in DOMAIN st.regs : st.regs[i][1] # op.h
    [] op.op = "unreg" -> \E i \in DOMAIN st.regs : st.regs[i][1] = op.h
    [] op.op = "open" -> st.phase = "connecting"
    [] op.op = "closing" -> st.phase = "open"
    [] op.op = "close" -> st.phase \in {"connecting", "open", "closing"}
    [] op.op = "tick" -> st.phase = "waiting"
    [] op.op = "wait" -> st.phase \in {"idle", "open"} \/ (st.phase = "dead" /\ st.ever)
    [] op.op = "recv" -> st.phase \in {"open", "closing"}
    [] OTHER -> TRUE

Handlers(st, type) == LET r == SelectSeq(st.regs, LAMBDA x : x[2] = type) IN [i \in DOMAIN r |-> r[i][1]]

(* what the server and the application see of a step *)
Seen(cfg, st, op) ==
  LET s == Do(cfg, st, op) IN
  [connects |-> IF s.socks > st.socks THEN <<s.loc>> ELSE <<>>,
   sent |-> SubSeq(s.out, Len(st.out) + 1, Len(s.out)), on |-> st.socks - 1,
   waited |-> IF op.op = "tick" THEN st.due ELSE 0,
   m |-> st.next,
   got |-> IF op.op = "recv" THEN Handlers(st, op.type) ELSE <<>>]

(* nothing is lost, doubled or reordered *)
Order(st, msgs) == \A i \in DOMAIN msgs : i < Len(msgs) => msgs[i] < msgs[i + 1]
=============================================================================
