------------------------------ MODULE Coalesce ------------------------------
(* Throttled and debounced event handlers of one element, in the browser.

   throttle: the first event is sent at once, later ones wait until the interval since the last sending
   is over, and the latest of them is sent then.  debounce (of fields): an event is passed on when no
   other followed for that long.  With both, debounced events are throttled.  Rendering the element
   again changes nothing.  A handler is [thr, deb, prevent, stop]; -1: not given.
   Times are milliseconds, the events' data are increasing numbers. *)
EXTENDS Integers, Sequences, FiniteSets

Max(a, b) == IF a > b THEN a ELSE b
Idle == [last |-> -1,                        \* when something was sent
         tp |-> 0, tdue |-> -1, tid |-> 0,   \* throttled: latest event, when it is due
         dp |-> 0, ddue |-> -1, did |-> 0,   \* debounced
         seen |-> 0,                         \* latest event
         sent |-> 0]                         \* latest one sent
Start(tag, hs) == [tag |-> tag, hs |-> hs, w |-> [i \in DOMAIN hs |-> Idle], now |-> 0, ids |-> 1, sends |-> <<>>, ok |-> TRUE]

Interval(st, h) == st.hs[h].thr
Delay(st, h) == IF st.tag = "div" THEN -1 ELSE st.hs[h].deb

Send(st, h, a) == [st EXCEPT !.sends = Append(@, [t |-> st.now, h |-> h, a |-> a]),
                             !.ok = @ /\ a > st.w[h].sent /\ (Interval(st, h) > 0 /\ st.w[h].last >= 0 => st.now - st.w[h].last >= Interval(st, h)),
                             !.w[h] = [@ EXCEPT !.last = st.now, !.sent = a, !.tp = 0, !.tdue = -1]]
Throttle(st, h, a) ==
  CASE Interval(st, h) < 0 \/ st.w[h].last < 0 \/ st.now - st.w[h].last >= Interval(st, h) -> Send(st, h, a)
    [] st.w[h].tdue < 0 -> [st EXCEPT !.w[h] = [@ EXCEPT !.tp = a, !.tdue = st.w[h].last + Interval(st, h), !.tid = st.ids], !.ids = @ + 1]
    [] OTHER -> [st EXCEPT !.w[h].tp = a]
Debounce(st, h, a) ==
  IF Delay(st, h) <= 0 THEN Throttle(st, h, a)
  ELSE [st EXCEPT !.w[h] = [@ EXCEPT !.dp = a, !.ddue = st.now + Delay(st, h), !.did = st.ids], !.ids = @ + 1]

Timers(st) == {<<st.w[h].tdue, st.w[h].tid, h, "t">> : h \in {x \in DOMAIN st.hs : st.w[x].tdue >= 0}}
              \cup {<<st.w[h].ddue, st.w[h].did, h, "d">> : h \in {x \in DOMAIN st.hs : st.w[x].ddue >= 0}}
RECURSIVE Fire(_, _)
Fire(st, to) ==
  LET due == {x \in Timers(st) : x[1] <= to} IN
  IF due = {} THEN [st EXCEPT !.now = Max(@, to)]
  ELSE LET x == CHOOSE x \in due : \A y \in due : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
           s == [st EXCEPT !.now = Max(@, x[1])] IN
       Fire(IF x[4] = "t" THEN Send(s, x[3], s.w[x[3]].tp)
            ELSE Throttle([s EXCEPT !.w[x[3]].ddue = -1, !.w[x[3]].dp = 0], x[3], s.w[x[3]].dp), to)

Waiting(st, h) == st.w[h].tdue >= 0 \/ st.w[h].ddue >= 0

Do(st0, op) ==
  LET st == [st0 EXCEPT !.sends = <<>>] IN
  CASE op.op = "ev" -> LET s == [st EXCEPT !.w[op.h].seen = op.a] IN Debounce(s, op.h, op.a)
    [] op.op = "adv" -> Fire(st, st.now + op.d)
    [] op.op = "late" -> [st EXCEPT !.now = @ + op.d]     \* the browser is busy, timers have to wait
    [] op.op = "show" -> [st EXCEPT !.hs = op.hs,
                            !.w = [h \in DOMAIN st.hs |-> IF st.hs[h].thr = op.hs[h].thr /\ st.hs[h].deb = op.hs[h].deb THEN st.w[h]
                                                          ELSE [st.w[h] EXCEPT !.last = -1]]]
(* rates change only while nothing is going on *)
Same(x, y) == x.thr = y.thr /\ x.deb = y.deb
Quiet(st, h, new) == ~Waiting(st, h) /\ (st.w[h].last < 0 \/ st.now - st.w[h].last >= Max(st.hs[h].thr, new.thr))
Can(st, op) == op.op = "show" => \A h \in DOMAIN st.hs : Same(st.hs[h], op.hs[h]) \/ Quiet(st, h, op.hs[h])

Seen(st, op) == LET s == Do(st, op) IN
  [sends |-> s.sends, prevent |-> op.op = "ev" /\ st.hs[op.h].prevent, stop |-> op.op = "ev" /\ st.hs[op.h].stop]

(* never too often, never backwards, and nothing is forgotten *)
Sound(st) == st.ok /\ \A h \in DOMAIN st.hs : Waiting(st, h) \/ st.w[h].sent = st.w[h].seen
=============================================================================
