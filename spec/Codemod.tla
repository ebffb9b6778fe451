------------------------------ MODULE Codemod -------------------------------
(* What becomes of the code of a file when the keys of elements are moved into their attributes ("keys"), or the names of
   their attributes are written in camelCase ("props").

   An expression is a record of its kind, and what it consists of:
     call  - a call of something (form), given attributes (how: "none", "dict", "call" of dict, "var"), children and a key
     other kinds of expressions have children only. *)
EXTENDS Naturals, Sequences, TLC

Elements == {"html.div", "reactpy.html.p", "div", "vdom", "html.my_tag"}   \* what constructs elements
Others == {"todo", "call_api", "obj.div", "my_tag"}                \* what doesn't
Consts == {"text", "hash", "uni", "num", "fstr", "long"}                   \* ... (the texts of) constants
Wraps == {"list", "tuple", "lambda", "or", "gen", "kw", "map", "apply", "if", "star", "interp", "sub", "cat"}

Node(k, form, how, pairs, kids, key) == [k |-> k, form |-> form, how |-> how, pairs |-> pairs, kids |-> kids, key |-> key]
Const(c) == Node("const", c, "none", <<>>, <<>>, <<>>)
Var(x) == Node("var", x, "none", <<>>, <<>>, <<>>)
Wrap(w, kids) == Node(w, "", "none", <<>>, kids, <<>>)
Call(form, how, pairs, kids, key) == Node("call", form, how, pairs, kids, key)
Pair(name, v) == [name |-> name, v |-> v]

(* names that consist of words are written in camelCase; others (the names of custom properties and of data, and those
   that would not be names anymore) stay as they are *)
Camel == [on_click |-> "onClick", max_line_height |-> "maxLineHeight", aria_x1_of_it |-> "ariaX1OfIt"]
Name(n) == IF n \in DOMAIN Camel THEN Camel[n] ELSE n

IsConst(n) == n.k \in {"const", "interp"}
Constructs(n) == n.k = "call" /\ n.form \in Elements
(* the key can be moved if it's known that there is a dictionary for it, or none *)
Movable(n) == /\ Constructs(n) /\ n.key # <<>>
              /\ (n.how \in {"dict", "call"} \/ (n.how = "none" /\ (n.kids = <<>> \/ IsConst(n.kids[1]))))
Renamable(n) == Constructs(n) /\ n.how \in {"dict", "call"}
(* a style may be given as dictionary, too *)
RECURSIVE Code(_, _), Codes(_, _), Renamed(_, _, _)
Codes(mode, ns) == [i \in DOMAIN ns |-> Code(mode, ns[i])]
Values(mode, ps) == [i \in DOMAIN ps |-> [ps[i] EXCEPT !.v = Code(mode, @)]]
Renamed(ps, how, deep) ==
  [i \in DOMAIN ps |-> [name |-> Name(ps[i].name),
                        v |-> IF ps[i].name = "style" /\ deep /\ ps[i].v.k = "map" /\ ps[i].v.how \in {"dict", "call"}
                              THEN [ps[i].v EXCEPT !.pairs = Renamed(@, "", FALSE)] ELSE ps[i].v]]
Code(mode, n) ==
  LET m == [n EXCEPT !.kids = Codes(mode, @), !.key = Codes(mode, @), !.pairs = Values(mode, @)]
  IN CASE mode = "keys" /\ Movable(n) -> [m EXCEPT !.how = IF @ = "none" THEN "dict" ELSE @, !.pairs = Append(@, Pair("key", m.key[1])), !.key = <<>>]
       [] mode = "props" /\ Renamable(n) -> [m EXCEPT !.pairs = Renamed(m.pairs, m.how, TRUE)]
       [] OTHER -> m
File(mode, stmts) == [i \in DOMAIN stmts |-> [stmts[i] EXCEPT !.of = Codes(mode, @)]]
(* the usages whose keys stay where they are *)
RECURSIVE Left(_)
Left(n) == LET parts == n.kids \o n.key \o [i \in DOMAIN n.pairs |-> n.pairs[i].v]
               RECURSIVE Sum(_)
               Sum(i) == IF i > Len(parts) THEN 0 ELSE Left(parts[i]) + Sum(i + 1)
           IN Sum(1) + (IF Constructs(n) /\ n.key # <<>> /\ ~Movable(n) THEN 1 ELSE 0)
(* done once is done *)
Once(mode, stmts) == File(mode, File(mode, stmts)) = File(mode, stmts)
Same(mode, stmts) == File(mode, stmts) = stmts
=============================================================================
