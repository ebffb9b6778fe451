------------------------------ MODULE Exports -------------------------------
(* The names a JavaScript module exports: its own, and those of the modules it exports everything from,
   without their defaults, as far as they are found within a depth.

   A module is [at |-> where ("file", "url", "missing", "failing"), own |-> a sequence of statements,
   all |-> a sequence of modules].  A statement is [form, names]; the names of a default one are
   {"default"}. *)
EXTENDS Naturals, Sequences, FiniteSets

RECURSIVE Names(_, _, _, _)
Names(g, m, depth, top) ==
  IF depth = 0 \/ g[m].at \in {"missing", "failing"} THEN {}
  ELSE LET own == UNION {ToS.names : ToS \in {g[m].own[i] : i \in 1..Len(g[m].own)}}
       IN (IF top THEN own ELSE own \ {"default"}) \cup UNION {Names(g, g[m].all[i], depth - 1, FALSE) : i \in 1..Len(g[m].all)}
=============================================================================
