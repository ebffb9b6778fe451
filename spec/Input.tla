------------------------------- MODULE Input --------------------------------
(* A field whose value belongs to the server, while the user types into it.

   The field has two handlers: 1 is told of every change of the text (possibly debounced or throttled,
   see Coalesce), 2 of keys.  Their events travel to the server, which handles them in order and renders
   at any time; a rendered update carries the server's value and which events it accounts for.  The
   browser takes over the value of an update exactly if it accounts for everything the user has done. *)
EXTENDS Coalesce, TLC

Key(thr, deb) == <<[thr |-> thr, deb |-> deb, prevent |-> FALSE, stop |-> FALSE], [thr |-> -1, deb |-> -1, prevent |-> FALSE, stop |-> FALSE]>>
Begin(cfg) == [co |-> Start("input", Key(cfg.thr, cfg.deb)),
               args |-> <<>>,          \* what the events were about
               text |-> "", writes |-> 0,
               model |-> [value |-> cfg.value, ack |-> 0], fresh |-> TRUE,  \* displayed, and not looked at yet
               wire |-> <<>>, sent |-> 0, handled |-> 0,                    \* to the server
               sval |-> cfg.value, ups |-> <<>>,                            \* to the browser
               last |-> [value |-> cfg.value, ack |-> 0]]                   \* what was rendered last

Handle(cfg, v, e) == CASE e.h = 2 /\ e.v = "enter" -> ""
                       [] e.h = 2 -> v
                       [] cfg.srv = "echo" -> e.v
                       [] cfg.srv = "upper" -> "N" \o e.v
                       [] OTHER -> v

(* events that are sent get on the wire *)
Post(st, co) == [st EXCEPT !.co = co, !.sent = @ + Len(co.sends),
                           !.wire = @ \o [i \in DOMAIN co.sends |-> [h |-> co.sends[i].h, v |-> st.args[co.sends[i].a]]]]
Event(st, h, v) == LET n == Len(st.args) + 1 IN Post([st EXCEPT !.args = Append(@, v)], Do(st.co, [op |-> "ev", h |-> h, a |-> n]))

Unsent(st) == Waiting(st.co, 1) \/ Waiting(st.co, 2)
Current(st) == ~Unsent(st) /\ st.model.ack = st.sent
Paint(cfg, st) ==
  IF st.fresh /\ Current(st) /\ cfg.value # "none" /\ st.text # st.model.value
  THEN [st EXCEPT !.fresh = FALSE, !.text = st.model.value, !.writes = @ + 1] ELSE [st EXCEPT !.fresh = FALSE]

Act(cfg, st, op) ==
  CASE op.op = "type" -> Event([st EXCEPT !.text = op.v], 1, op.v)
    [] op.op = "key" -> Event(st, 2, op.v)
    [] op.op = "adv" -> Post(st, Do(st.co, [op |-> "adv", d |-> op.d]))
    [] op.op = "handle" -> [st EXCEPT !.sval = Handle(cfg, @, Head(st.wire)), !.wire = Tail(@), !.handled = @ + 1]
    [] op.op = "push" -> [st EXCEPT !.sval = op.v]
    [] op.op = "render" -> LET u == [value |-> st.sval, ack |-> st.handled] IN [st EXCEPT !.ups = Append(@, u), !.last = u]
    [] op.op = "deliver" -> LET s == Paint(cfg, st) IN
                            [s EXCEPT !.fresh = Head(st.ups) # st.model, !.model = Head(st.ups), !.ups = Tail(@)]
    [] op.op = "paint" -> Paint(cfg, st)
Able(st, op) ==
  CASE op.op = "handle" -> st.wire # <<>>
    [] op.op = "deliver" -> st.ups # <<>> /\ ~st.fresh   \* browsers paint in between
    [] op.op = "paint" -> st.fresh
    [] op.op = "render" -> st.last # [value |-> st.sval, ack |-> st.handled]
    [] op.op = "push" -> st.sval # op.v
    [] OTHER -> TRUE

Look(cfg, st, op) == LET s == Act(cfg, st, op) IN
  [text |-> s.text, writes |-> s.writes,
   sends |-> [i \in 1..(s.sent - st.sent) |-> LET e == s.co.sends[i] IN [h |-> e.h, v |-> s.args[e.a]]],
   update |-> IF op.op = "deliver" THEN Head(st.ups) ELSE st.model]

(* once everything the user did is accounted for and nothing is on its way, both have the same value *)
Agreed(cfg, st) == (~Unsent(st) /\ st.wire = <<>> /\ st.ups = <<>> /\ ~st.fresh /\ st.last = [value |-> st.sval, ack |-> st.sent])
                   => (cfg.value = "none" \/ st.text = st.sval)
(* what was typed is only overwritten by a value that accounts for it *)
Kept(cfg, st, s, op) == s.text # st.text /\ op.op # "type" => /\ op.op \in {"paint", "deliver"} /\ ~Unsent(st) /\ st.model.ack = st.sent
                                                              /\ s.text = st.model.value
=============================================================================
