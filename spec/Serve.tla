------------------------------- MODULE Serve --------------------------------
(* serve_layout: the loop between a layout and a connection.

   The layout hands out updates, the connection takes them one at a time and in order; messages that
   arrive are given to the layout in order without waiting for earlier ones; a failure of any part, or
   being cancelled, ends everything, and the layout has been exited when it is over. *)
EXTENDS Naturals, Sequences, FiniteSets

Start == [ready |-> 0,        \* updates the layout has had so far
          begun |-> 0,        \* how many of them were given to send (1..begun, in order)
          sending |-> FALSE,  \* the last of these is still being sent
          msgs |-> 0,         \* messages that arrived (and were given to the layout, in order)
          busy |-> {},        \* those the layout is still working on
          over |-> "no"]      \* how it ended

(* the loop proceeds on its own as far as it can *)
Settle(s) == IF s.over = "no" /\ ~s.sending /\ s.begun < s.ready THEN [s EXCEPT !.begun = @ + 1, !.sending = TRUE] ELSE s

End(s, why) == [s EXCEPT !.over = why, !.busy = {}, !.sending = FALSE]

Do(s, op) ==
  CASE op[1] = "update"   -> Settle([s EXCEPT !.ready = @ + 1])
    [] op[1] = "burst"    -> Settle([s EXCEPT !.ready = @ + 2])
    [] op[1] = "sent"     -> Settle([s EXCEPT !.sending = FALSE])
    [] op[1] = "msg"      -> [s EXCEPT !.msgs = @ + 1, !.busy = @ \cup {s.msgs + 1}]
    [] op[1] = "msgs"     -> [s EXCEPT !.msgs = @ + 2, !.busy = @ \cup {s.msgs + 1, s.msgs + 2}]
    [] op[1] = "delivered" -> [s EXCEPT !.busy = @ \ {op[2]}]
    [] op[1] = "send_fails" -> End(s, "error")
    [] op[1] = "deliver_fails" -> End(s, "error")
    [] op[1] = "recv_fails" -> End(s, "error")
    [] op[1] = "render_fails" -> End(s, "error")
    [] op[1] = "cancel"   -> End(s, "cancelled")

Can(s, op) == /\ s.over = "no"
              /\ CASE op[1] \in {"sent", "send_fails"} -> s.sending
                   [] op[1] \in {"delivered", "deliver_fails"} -> op[2] \in s.busy
                   [] op[1] = "render_fails" -> ~s.sending
                   [] OTHER -> TRUE

Seen(s) == [begun |-> s.begun, sending |-> s.sending, msgs |-> s.msgs, busy |-> s.busy, over |-> s.over]
=============================================================================
