------------------------------- MODULE Mount --------------------------------
(* The components in a page: each has its own connection (Conn), by which it gets a component of the server; it
   displays this, from the start for each connection, with the location the page has then.

   cfg: tags, the components named in the page (in order); known, those the application serves; and what Conn needs *)
EXTENDS Conn

None == [n |-> 0, path |-> "", qs |-> "", is |-> FALSE]
Fresh(c) == [conn |-> Do(c, Start(c), [op |-> "reg", h |-> 1, type |-> "layout-update"]), shown |-> None,
             at |-> [path |-> "/", qs |-> ""],    \* the location told by its connection
             live |-> FALSE]                      \* what it displays is that of its present connection
Loaded(c, loc) == [i \in DOMAIN c.tags |-> [Fresh(c) EXCEPT !.at = loc, !.conn.loc = loc]]
Known(c, i) == c.tags[i] \in c.known

One(c, p, i, op) ==
  LET n == [p EXCEPT !.conn = Do(c, @, IF op.op = "click" THEN [op |-> "send"] ELSE op)] IN
  CASE op.op = "open" -> IF Known(c, i) THEN [n EXCEPT !.shown = [n |-> 0, path |-> p.at.path, qs |-> p.at.qs, is |-> TRUE], !.live = TRUE] ELSE n
    [] op.op = "close" -> [n EXCEPT !.live = FALSE]
    [] op.op = "tick" -> [n EXCEPT !.at = p.conn.loc]
    [] op.op = "click" -> [n EXCEPT !.shown.n = @ + 1]
    [] OTHER -> n
MayOne(c, p, op) ==
  CASE op.op = "click" -> p.live    \* an event that has to wait for a new connection may or may not find something in its place
    [] OTHER -> Can(p.conn, op)

Page(c, ps, op) == IF op.op = "nav" THEN [i \in DOMAIN ps |-> One(c, ps[i], i, op)] ELSE [ps EXCEPT ![op.i] = One(c, @, op.i, op)]
May(c, ps, op) == IF op.op = "nav" THEN TRUE ELSE MayOne(c, ps[op.i], op)

Shows(ps) == [i \in DOMAIN ps |-> ps[i].shown]
Saw(c, ps, op) ==
  LET qs == Page(c, ps, op) IN
  [shown |-> Shows(qs),
   connects |-> IF op.op = "tick" THEN <<qs[op.i].at>> ELSE <<>>,
   waits |-> IF op.op = "close" /\ qs[op.i].conn.phase = "waiting" THEN qs[op.i].conn.due ELSE 0,
   sent |-> IF op.op = "nav" THEN 0 ELSE Len(qs[op.i].conn.out) - Len(ps[op.i].conn.out)]

(* they have nothing to do with each other *)
Apart(c, ps, op) == op.op # "nav" => \A i \in DOMAIN ps : i # op.i => Page(c, ps, op)[i] = ps[i]
Right(c, ps) == \A i \in DOMAIN ps : /\ ps[i].live => ps[i].conn.phase = "open" /\ ps[i].shown.path = ps[i].at.path /\ ps[i].shown.qs = ps[i].at.qs
                                     /\ ps[i].shown.is => Known(c, i)
                                     /\ (ps[i].conn.phase = "open" /\ Known(c, i)) => ps[i].live
=============================================================================
