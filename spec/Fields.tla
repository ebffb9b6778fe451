------------------------------- MODULE Fields -------------------------------
(* Fields whose values belong to the server, over connections which break: what the user types is sent, in order, to
   the session of the present connection, or waits for the next; the session's updates come back, in order.  Fields
   come and go.

   cfg: mode   "form"    one component has the values of all fields
               "parts"   each field is a component of its own, and updates are of a single one
               "linked"  all fields have the same value, that of the last change (use_linked_inputs)
        srv    what the server makes of a change: echo, mark, fix, refuse, or copy (also to the next field)
        deb    changes are sent when the user has paused;  thr: after one is sent, the next have to wait
        empty  an empty text is told, too;  bad: it can't be cast                                     (linked only) *)
EXTENDS Sequences, Naturals, TLC

N(c) == Len(c.srv)
All(c, x) == [i \in 1..N(c) |-> x]
Initial == "s"
Whole(st) == [part |-> 0, vals |-> st.vals, vis |-> st.vis, acks |-> st.acks]
Begin(c) == [phase |-> "up", sess |-> 1,
             text |-> All(c, Initial), on |-> All(c, TRUE),        \* what is displayed
             last |-> All(c, 0), to |-> All(c, 0), born |-> All(c, 0),    \* the last event of each field, and the session it's for
             cool |-> All(c, FALSE), held |-> <<>>, queue |-> <<>>, wire |-> <<>>, ups |-> <<>>, ids |-> 0,
             vals |-> All(c, Initial), vis |-> All(c, TRUE), acks |-> All(c, 0), told |-> <<>>]

Is(es, i) == \E k \in DOMAIN es : es[k].i = i
Own(st, es, i) == \E k \in DOMAIN es : es[k].i = i /\ es[k].id > st.born[i]    \* not those of another that was at its place
Send(st, e) ==
  LET m == [i |-> e.i, v |-> e.v, id |-> st.ids + 1]
      s == [st EXCEPT !.ids = @ + 1, !.last[e.i] = st.ids + 1, !.to[e.i] = IF st.phase = "up" THEN st.sess ELSE st.sess + 1] IN
  IF st.phase = "up" THEN [s EXCEPT !.wire = Append(@, m)] ELSE [s EXCEPT !.queue = Append(@, m)]
RECURSIVE SendAll(_, _)
SendAll(st, es) == IF es = <<>> THEN st ELSE SendAll(Send(st, Head(es)), Tail(es))

(* the server; an update follows if there's something else to display *)
Shown(c, st, i) == c.mode = "linked" \/ st.vis[i]
Next1(c, i) == (i % N(c)) + 1
Values(c, st, i, v) ==
  IF c.mode = "linked" THEN All(c, v)
  ELSE CASE c.srv[i] = "echo" -> [st.vals EXCEPT ![i] = v]
         [] c.srv[i] = "mark" -> [st.vals EXCEPT ![i] = "N" \o v]
         [] c.srv[i] = "fix" -> [st.vals EXCEPT ![i] = "K"]
         [] c.srv[i] = "copy" -> [st.vals EXCEPT ![i] = v, ![Next1(c, i)] = v]
         [] OTHER -> st.vals
Told(c, v) == IF c.mode # "linked" \/ (v = "" /\ ~c.empty) \/ (v = "x" /\ c.bad) THEN <<>> ELSE <<"c" \o v>>
Change(c, st, vals, i) ==
  IF vals = st.vals THEN st
  ELSE LET s == [st EXCEPT !.vals = vals] IN [s EXCEPT !.ups = Append(@, [Whole(s) EXCEPT !.part = IF c.mode = "parts" THEN i ELSE 0])]
Serve(c, st) ==
  LET e == Head(st.wire)
      s == [st EXCEPT !.wire = Tail(@), !.acks[e.i] = e.id] IN
  IF Shown(c, st, e.i) THEN Change(c, [s EXCEPT !.told = @ \o Told(c, e.v)], Values(c, st, e.i, e.v), e.i) ELSE s

(* the browser; a value is taken over if it accounts for all that the user did to the field, as far as there's still a
   session that could *)
Covered(st, u, i) == ~Is(st.held, i) /\ (st.last[i] = 0 \/ st.to[i] < st.sess \/ (st.to[i] = st.sess /\ st.last[i] <= u.acks[i]))
In(u, i) == u.part \in {0, i}
New(st, u, i) == In(u, i) /\ u.vis[i] /\ ~st.on[i]
Deliver(c, st) ==
  LET u == Head(st.ups) IN
  [st EXCEPT !.ups = Tail(@),
             !.on = [i \in DOMAIN @ |-> IF In(u, i) THEN u.vis[i] ELSE @[i]],
             !.text = [i \in DOMAIN @ |-> IF In(u, i) /\ u.vis[i] /\ (~st.on[i] \/ Covered(st, u, i)) THEN u.vals[i] ELSE @[i]],
             !.born = [i \in DOMAIN @ |-> IF New(st, u, i) THEN st.ids ELSE @[i]],
             !.cool = [i \in DOMAIN @ |-> @[i] /\ ~New(st, u, i)],
             !.last = [i \in DOMAIN @ |-> IF New(st, u, i) THEN 0 ELSE @[i]]]

(* all at once: the updates may be fewer, but the last of them accounts for everything *)
RECURSIVE ServeAll(_, _), DeliverAll(_, _)
ServeAll(c, st) == IF st.wire = <<>> THEN st ELSE ServeAll(c, Serve(c, st))
DeliverAll(c, st) == IF st.ups = <<>> THEN st ELSE DeliverAll(c, Deliver(c, st))
RECURSIVE Told1(_, _)
Told1(c, st) == IF st.wire = <<>> THEN TRUE ELSE Len(Serve(c, st).ups) > Len(st.ups) /\ Told1(c, Serve(c, st))

Act(c, st, op) ==
  CASE op.op = "type" -> LET s == [st EXCEPT !.text[op.i] = op.v] IN
                         LET e == [i |-> op.i, v |-> op.v] IN
                         CASE c.deb -> [s EXCEPT !.held = Append(SelectSeq(@, LAMBDA x : x.i # op.i), e)]
                           [] ~c.deb /\ st.cool[op.i] -> [s EXCEPT !.held = IF Is(@, op.i) THEN [k \in DOMAIN @ |-> IF @[k].i = op.i THEN e ELSE @[k]] ELSE Append(@, e)]
                           [] OTHER -> [Send(s, e) EXCEPT !.cool[op.i] = c.thr]
    [] op.op = "adv" -> [SendAll(st, st.held) EXCEPT !.held = <<>>, !.cool = [i \in DOMAIN @ |-> c.thr /\ Is(st.held, i)]]
    [] op.op = "serve" -> Serve(c, st)
    [] op.op = "deliver" -> Deliver(c, st)
    [] op.op = "rush" -> DeliverAll(c, ServeAll(c, st))
    [] op.op = "push" -> Change(c, st, IF c.mode = "linked" THEN All(c, op.v) ELSE [st.vals EXCEPT ![op.i] = op.v], op.i)
    [] op.op = "toggle" -> LET s == [st EXCEPT !.vis[op.i] = ~@, !.vals[op.i] = IF c.mode = "parts" /\ ~st.vis[op.i] THEN Initial ELSE @] IN
                           [s EXCEPT !.ups = Append(@, Whole(s))]
    [] op.op = "break" -> [st EXCEPT !.phase = "down", !.wire = <<>>, !.ups = <<>>]
    [] OTHER -> LET s == [st EXCEPT !.phase = "up", !.sess = @ + 1, !.vals = All(c, Initial), !.vis = All(c, TRUE), !.acks = All(c, 0),
                                    !.wire = st.queue, !.queue = <<>>] IN
                [s EXCEPT !.ups = <<Whole(s)>>]
Able(c, st, op) ==
  CASE op.op = "type" -> st.on[op.i] /\ st.text[op.i] # op.v
    [] op.op = "adv" -> st.held # <<>> \/ \E i \in DOMAIN st.cool : st.cool[i]
    [] op.op = "serve" -> st.phase = "up" /\ st.wire # <<>>
    [] op.op = "rush" -> /\ st.phase = "up" /\ Len(st.wire) > 1 /\ st.held = <<>> /\ Told1(c, st)
                         /\ \A k \in DOMAIN st.wire : st.wire[k].i = st.wire[1].i     \* events of different fields are independent
    [] op.op = "deliver" -> st.ups # <<>> /\ \A e \in {st.held[k] : k \in DOMAIN st.held} : In(Head(st.ups), e.i) => Head(st.ups).vis[e.i]
    [] op.op = "push" -> st.phase = "up" /\ c.mode # "linked" /\ (c.mode = "parts" => st.vis[op.i]) /\ st.vals[op.i] # op.v
    [] op.op = "toggle" -> st.phase = "up" /\ c.mode # "linked"
    [] op.op = "break" -> st.phase = "up"
    [] OTHER -> st.phase = "down"

Look(c, st, op) == LET s == Act(c, st, op) IN
  [text |-> [i \in DOMAIN s.text |-> IF s.on[i] THEN s.text[i] ELSE "-"],
   sent |-> IF op.op \in {"break", "rush"} THEN <<>> ELSE [k \in 1..(IF op.op = "up" THEN Len(st.queue) ELSE Len(s.wire) - (IF op.op = "serve" THEN Len(st.wire) - 1 ELSE Len(st.wire))) |->
             LET e == s.wire[Len(s.wire) - (IF op.op = "up" THEN Len(st.queue) ELSE Len(s.wire) - Len(st.wire)) + k] IN [i |-> e.i, v |-> e.v]],
   ups |-> IF op.op \in {"break", "rush"} THEN 0 ELSE Len(s.ups) - (IF op.op = "deliver" THEN Len(st.ups) - 1 ELSE IF op.op = "up" THEN 0 ELSE Len(st.ups)),
   told |-> SubSeq(s.told, Len(st.told) + 1, Len(s.told)),
   vals |-> s.vals]

(* Typing is only overwritten by a value that accounts for it *)
Kept(c, st, op) == op.op # "type" =>
  \A i \in DOMAIN st.text : LET s == Act(c, st, op) IN
     s.text[i] # st.text[i] => /\ op.op = "rush" \/ (op.op = "deliver" /\ s.text[i] = Head(st.ups).vals[i])
                               /\ \/ op.op = "rush" /\ ~Is(st.queue, i)
                                  \/ ~Is(st.held, i) /\ ~Own(st, st.wire, i) /\ ~Own(st, st.queue, i)
                                  \/ ~st.on[i]      \* another field at its place
(* once all is sent, handled and displayed, both sides agree on what the server has answered *)
Agreed(c, st) == (st.phase = "up" /\ st.held = <<>> /\ st.wire = <<>> /\ st.ups = <<>>) =>
  \A i \in DOMAIN st.text : /\ st.on[i] = st.vis[i]
                            /\ (st.on[i] /\ (st.last[i] = 0 \/ st.to[i] < st.sess)) => st.text[i] = st.vals[i]
=============================================================================
