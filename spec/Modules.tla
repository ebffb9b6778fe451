------------------------------ MODULE Modules -------------------------------
(* Publishing JavaScript modules: what browsers get under the name of a module.

   Sources are files with a content (a number, 0: no such file).  Published under a name is nothing, a
   copy of a content, or a link to a source.  Registrations under a name replace each other, whichever
   way they are made and whatever was registered before; a registration may be made by a process that
   dies at some point, and by two processes at once. *)
EXTENDS Naturals, Sequences, FiniteSets

Nothing == <<"nothing", 0>>
Served(st, name) == LET p == st.pub[name] IN CASE p[1] = "copy" -> p[2] [] p[1] = "link" -> st.src[p[2]] [] OTHER -> 0

(* what a registration publishes *)
Target(st, op) == IF op.op = "string" THEN <<"copy", op.v>> ELSE IF op.link THEN <<"link", op.f>> ELSE <<"copy", st.src[op.f]>>
Content(st, op) == IF op.op = "string" THEN op.v ELSE st.src[op.f]
Possible(st, op) == op.op = "string" \/ st.src[op.f] # 0

Do(st, op) ==
  CASE op.op \in {"string", "file"} -> IF Possible(st, op) THEN [st EXCEPT !.pub[op.name] = Target(st, op)] ELSE st
    [] op.op = "edit" -> [st EXCEPT !.src[op.f] = op.v]
    [] op.op = "wipe" -> [st EXCEPT !.pub[op.name] = Nothing]

(* every module exports "Both" and a name of its own *)
Result(st, op) == CASE op.op \notin {"string", "file"} -> "ok"
                    [] ~Possible(st, op) -> "missing"
                    [] op.resolve /\ op.want = "Other" -> "refused"
                    [] OTHER -> "ok"
(* what browsers may see while it happens *)
During(st, op, name) == {Served(st, name), Served(Do(st, op), name)}

Seen(st, op) ==
  [result |-> Result(st, op), during |-> [n \in DOMAIN st.pub |-> During(st, op, n)],
   served |-> [n \in DOMAIN st.pub |-> Served(Do(st, op), n)],
   fallback |-> IF op.op \in {"string", "file"} THEN op.fb ELSE 0]
=============================================================================
