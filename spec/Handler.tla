------------------------------ MODULE Handler -------------------------------
(* What is announced about an event handler, and how it is called.

   The body of a handler is a sequence of statements on its event; the flags the browser is told are
   those declared when the handler was made, together with those its body uses. *)
EXTENDS Naturals, Sequences, FiniteSets

NONE == 999    \* no number

Stmts == {"prevent", "stop", "lit1", "lit2", "unknown", "local", "reassign", "dflt", "closure", "other_prevent", "other_debounce",
          "if_prevent", "if_stop", "sub_prevent", "read", "read_debounce", "pass"}

(* in which shape the function is *)
Shapes == {"fn", "afn", "method", "amethod", "classmethod", "staticmethod", "callable", "acallable", "partialkw", "partialpos",
           "partial2", "apartial", "wraps", "wrapped_method", "captured", "big", "posonly", "lambda", "defaults", "kwdefaults"}

Uses(body, s) == \E i \in 1..Len(body) : body[i] \in s
Prevent(body) == Uses(body, {"prevent", "if_prevent"})
Stop(body)    == Uses(body, {"stop", "if_stop"})

(* the number an assignment to event.debounce gives, as far as it can be known beforehand *)
DefaultOf(shape) == IF shape \in {"partialkw", "partial2", "apartial"} THEN 8 ELSE 7
Number(s, shape, body) ==
  CASE s = "lit1" -> 1
    [] s = "lit2" -> 2
    [] s = "closure" -> 9
    [] s = "dflt" -> IF Uses(body, {"reassign"}) THEN NONE ELSE DefaultOf(shape)
    [] OTHER -> NONE
Assigns == {"lit1", "lit2", "unknown", "local", "dflt", "closure"}
Numbers(body, shape) == {Number(body[i], shape, body) : i \in {j \in 1..Len(body) : body[j] \in Assigns}}

(* the numbers that may be announced: what is not sure is not guessed; among several any may be chosen *)
Debounce(body, shape, declared) ==
  LET n == Numbers(body, shape)
  IN IF n = {} THEN {declared} ELSE IF NONE \in n THEN {declared} ELSE n

Flags(body, shape, d) == [prevent |-> d.prevent \/ Prevent(body), stop |-> d.stop \/ Stop(body),
                          debounce |-> Debounce(body, shape, d.debounce), throttle |-> d.throttle]
=============================================================================
