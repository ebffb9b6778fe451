------------------------------ MODULE ConfigGen ------------------------------
(* The options of reactpy.config: what each text in the environment means,   *)
(* and how the options that belong to the debug mode follow it.              *)
EXTENDS Integers, Sequences, TLC, Json

VARIABLES case, seen
Texts == {"unset", "1", "0", "true", "True", "FALSE", "false", "yes", ""}
True1 == {"1", "true", "True"}
False1 == {"0", "false", "FALSE"}
Valid(t) == t \in True1 \cup False1 \cup {"unset"}
Bool(t) == t \in True1

(* after loading with the two texts and then assigning the values later to   *)
(* the debug option: the values of (debug, child), or an error               *)
Child0(d, c) == IF c = "unset" THEN Bool(d) ELSE Bool(c)
RECURSIVE Follow(_, _, _)
Follow(d, c, later) ==
    IF later = <<>> THEN << <<d, c>> >>
    ELSE LET d2 == later[1]
             c2 == IF d2 = d THEN c ELSE d2
         IN << <<d, c>> >> \o Follow(d2, c2, Tail(later))
Later == {<<>>, <<TRUE>>, <<FALSE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>, <<FALSE, FALSE, TRUE>>}
Expect(x) == IF ~Valid(x.debug) \/ ~Valid(x.child) THEN [error |-> TRUE, values |-> <<>>]
             ELSE [error |-> FALSE, values |-> Follow(Bool(x.debug), Child0(x.debug, x.child), x.later)]
Init == /\ case \in [kind : {"REACTPY_CHECK_VDOM_SPEC", "REACTPY_CHECK_JSON_ATTRS"}, debug : Texts, child : Texts, later : Later]
        /\ seen = Expect(case)
        /\ PrintT("HIST " \o ToJson([case |-> case, seen |-> seen]))
Next == UNCHANGED <<case, seen>>
(* the value given for the option itself is what it starts with *)
OwnWins == ~seen.error /\ case.child # "unset" => seen.values[1][2] = Bool(case.child)
(* and from the first change of the debug mode on, the option follows it *)
Follows == ~seen.error => \A i \in 2..Len(seen.values) : seen.values[i][1] # seen.values[i-1][1] => seen.values[i][1] = seen.values[i][2]
==============================================================================
