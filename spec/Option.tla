------------------------------- MODULE Option -------------------------------
(* Configuration options: values, environment, parents, subscribers.        *)
(* Three kinds: "P" an ordinary option, "C" its child, "I" an immutable one, *)
(* "D" a deprecated one.  Raw values are what callers write; the validator   *)
(* turns them into integers or rejects them.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Opts == <<"P", "C", "I", "D">>
Opt == {"P", "C", "I", "D"}
Raw == {"i0", "i1", "i2", "s0", "s1", "s2", "bad", "none"}
Rejected == {"bad", "none"}
IntRaw == {"i0", "i1", "i2"}
Val(raw) == CASE raw \in {"i0", "s0"} -> 0 [] raw \in {"i1", "s1"} -> 1 [] raw \in {"i2", "s2"} -> 2
Exc(raw) == CASE raw = "bad" -> "ValueError" [] raw = "none" -> "TypeError"
UNSET == -1
Default == [o \in Opt |-> IF o = "D" THEN 1 ELSE 0]
Mutable(o) == o # "I"

(* st: env[o] raw or "unset", cur[o] value or UNSET, subs[o] number of      *)
(* subscribers; note: notifications made by the last operation               *)
Cur(st, o) == IF st.cur[o] = UNSET THEN Default[o] ELSE st.cur[o]

RECURSIVE Notify(_, _, _), Assign(_, _, _)
Own(st, o, v) == [i \in 1..st.subs[o] |-> <<o, i, v>>]
(* o now has the value v and it is different from before *)
Notify(st, o, v) ==
    LET a == IF o = "P" THEN Assign(st, "C", v) ELSE st
    IN [a EXCEPT !.note = @ \o Own(st, o, v)]
(* o is given the (valid) value v *)
Assign(st, o, v) ==
    LET old == Cur(st, o)
    IN IF v = old THEN st ELSE Notify([st EXCEPT !.cur[o] = v], o, v)

(* what a caller's assignment does: <<state, exception>> *)
Set(st, o, raw) ==
    LET old == Cur(st, o)
    IN CASE raw \in IntRaw /\ Val(raw) = old -> <<st, "none">>      (* the very same object *)
         [] ~Mutable(o) -> <<st, "TypeError">>
         [] raw \in Rejected -> <<st, Exc(raw)>>
         [] Val(raw) = old -> <<[st EXCEPT !.cur[o] = old], "none">>
         [] OTHER -> <<Assign(st, o, Val(raw)), "none">>

Unset(st, o) ==
    IF ~Mutable(o) THEN <<st, "TypeError">>
    ELSE LET old == Cur(st, o)
             s1 == [st EXCEPT !.cur[o] = UNSET]
         IN IF Default[o] = old THEN <<s1, "none">> ELSE <<Notify(s1, o, Default[o]), "none">>

DefaultRaw(o) == IF Default[o] = 0 THEN "i0" ELSE "i1"
Reload(st, o) == Set(st, o, IF st.env[o] = "unset" THEN DefaultRaw(o) ELSE st.env[o])

SetDefault(st, o, raw) == IF st.cur[o] = UNSET THEN Set(st, o, raw) ELSE <<st, "none">>

Subscribe(st, o) ==
    IF ~Mutable(o) THEN <<st, "TypeError">>
    ELSE <<[st EXCEPT !.subs[o] = @ + 1, !.note = Append(@, <<o, st.subs[o] + 1, Cur(st, o)>>)], "none">>

(* values as constructed under an environment, the parent before the child;  *)
(* the environment wins over the parent's value                              *)
InitCur(env) == [o \in Opt |-> CASE env[o] # "unset" -> Val(env[o])
                                 [] o = "C" /\ env["P"] # "unset" /\ Val(env["P"]) # 0 -> Val(env["P"])
                                 [] OTHER -> UNSET]
Start(env) == [env |-> env, cur |-> InitCur(env), subs |-> [o \in Opt |-> 0], note |-> <<>>]

Ops == {<<"set", o, r>> : o \in Opt, r \in Raw}
       \cup {<<"set_default", o, r>> : o \in Opt, r \in Raw}
       \cup {<<"unset", o, "">> : o \in Opt} \cup {<<"reload", o, "">> : o \in Opt}
       \cup {<<"subscribe", o, "">> : o \in Opt}
       \cup {<<"env", o, r>> : o \in Opt, r \in {"unset", "s1", "s2", "bad"}}

Do(st0, op) ==
    LET st == [st0 EXCEPT !.note = <<>>]
        o == op[2]
    IN CASE op[1] = "set" -> Set(st, o, op[3])
         [] op[1] = "set_default" -> SetDefault(st, o, op[3])
         [] op[1] = "unset" -> Unset(st, o)
         [] op[1] = "reload" -> Reload(st, o)
         [] op[1] = "subscribe" -> Subscribe(st, o)
         [] op[1] = "env" -> <<[st EXCEPT !.env[o] = op[3]], "none">>

Seen(r) == [exc |-> r[2], note |-> r[1].note,
            cur |-> [o \in Opt |-> Cur(r[1], o)], is_set |-> [o \in Opt |-> r[1].cur[o] # UNSET]]
==============================================================================
