----------------------------- MODULE HandlerGen -----------------------------
EXTENDS Handler, Json, TLC, Randomization
CONSTANTS Extra
VARIABLES case
Bodies == UNION {[1..n -> Stmts] : n \in 0..2}
Declared == [prevent : BOOLEAN, stop : BOOLEAN, debounce : {NONE, 0, 50}, throttle : {NONE, 30}]
Plain == [prevent |-> FALSE, stop |-> FALSE, debounce |-> NONE, throttle |-> NONE]
(* made by being an attribute, by the decorator, or by the class *)
Case(b, s, w, d) == [body |-> b, shape |-> s, way |-> w, declared |-> d, want |-> Flags(b, s, d)]
Inits == \/ \E b \in Bodies, s \in Shapes, w \in {"attr", "event", "handler"} : case = Case(b, s, w, Plain)
         \/ \E b \in [1..1 -> Stmts], s \in {"fn", "amethod", "partial2"}, w \in {"event", "handler"}, d \in Declared : case = Case(b, s, w, d)
         \/ \E b \in RandomSubset(Extra, [1..3 -> Stmts]), s \in RandomSubset(8, Shapes), w \in {"attr", "event", "handler"} : case = Case(b, s, w, Plain)
         \/ \E b \in RandomSubset(Extra, [1..4 -> Stmts]), s \in RandomSubset(4, Shapes) : case = Case(b, s, "attr", Plain)
(* a lambda is one expression and staticmethods and the like have no default to bind *)
Fits == case.shape = "lambda" => Len(case.body) <= 1 /\ \A i \in 1..Len(case.body) : case.body[i] \in {"prevent", "stop", "read", "sub_prevent", "if_prevent", "pass"}
Init == Inits /\ Fits
Next == PrintT("HIST " \o ToJson(case)) /\ UNCHANGED case

(* flags are only ever added, and only by the body *)
Sound == /\ case.declared.prevent => case.want.prevent
         /\ case.want.prevent => case.declared.prevent \/ Uses(case.body, {"prevent", "if_prevent"})
         /\ case.want.throttle = case.declared.throttle
         /\ case.want.debounce # {}
         /\ ~Uses(case.body, Assigns) => case.want.debounce = {case.declared.debounce}
=============================================================================
