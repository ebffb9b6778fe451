------------------------------- MODULE Script -------------------------------
(* The meaning of the Python files of a PyScript component.

   A file is a sequence of statements.  Texts in them are literals of some prefix and quotes, made of
   pieces (what the pieces look like in a file, and as text, is up to the harness).  Running the files one after
   another gives values to names; a text's value is the sequence of what its pieces mean. *)
EXTENDS Naturals, Sequences, FiniteSets

Quotes == {"1", "2", "111", "222"}     \* ' " ''' and three "
Long == {"111", "222"}
Prefixes == {"", "r", "b", "f"}
Escapes == {"enl", "etab", "bs", "equote", "cont"}
Lines == {"nl", "nl2", "trail", "nltab", "nlslot", "nlcomment", "nldoc"}
Plain == {"a", "hash", "comment", "uuid", "ret", "slot", "def", "close", "CLOSE", "remark", "open", "amp", "uni", "brace", "tab", "spaces", "q1", "q2", "ddd", "sss", "doc"}
Pieces == Escapes \cup Lines \cup Plain

Fits(prefix, quote, p) ==
  /\ (p \in Lines => quote \in Long)
  /\ (p \in {"q1", "sss"} => quote \in {"2", "222"})
  /\ (p \in {"q2", "ddd", "doc", "nldoc"} => quote \in {"1", "111"})
  /\ (p = "uni" => prefix # "b")
  /\ (p \in {"cont", "equote"} => prefix # "r")
(* a raw text keeps its backslashes *)
Means(prefix, quote, p) == CASE prefix = "r" /\ p \in Escapes -> "raw " \o p
                             [] p = "equote" -> IF quote \in {"1", "111"} THEN "q1" ELSE "q2"
                             [] OTHER -> p
Lit(prefix, quote, ps) == [prefix |-> prefix, quote |-> quote, ps |-> ps]
Value(l) == [bytes |-> l.prefix = "b", ps |-> SelectSeq([i \in DOMAIN l.ps |-> Means(l.prefix, l.quote, l.ps[i])], LAMBDA p : p # "cont")]
Joined(v, w) == [v EXCEPT !.ps = @ \o w.ps]
None == [none |-> TRUE]

(* ---- statements: kind, name, literals, nested statements ---- *)
Stmt(k, x, ls, body, how) == [k |-> k, x |-> x, ls |-> ls, body |-> body, how |-> how]
Set(env, x, v) == [n \in DOMAIN env \cup {x} |-> IF n = x THEN v ELSE env[n]]
RECURSIVE Run(_, _), RunAll(_, _)
Run(env, s) ==
  CASE s.k = "let" -> Set(env, s.x, [items |-> <<Value(s.ls[1])>>])
    [] s.k = "list" -> Set(env, s.x, [items |-> [i \in DOMAIN s.ls |-> Value(s.ls[i])]])
    [] s.k = "cat" -> Set(env, s.x, [items |-> <<Joined(Value(s.ls[1]), Value(s.ls[2]))>>])
    [] s.k = "fmt" -> Set(env, s.x, [items |-> <<Joined(Value(s.ls[1]), Value(s.ls[2]))>>])   \* the second is inserted into the first
    [] s.k = "def" -> LET inner == RunAll([n \in {} |-> None], s.body) IN
                        Set(env, s.x, IF DOMAIN inner = {} THEN None ELSE inner["x"])          \* returns its last x, or nothing
    [] s.k = "class" -> LET inner == RunAll([n \in {} |-> None], s.body) IN
                        Set(env, s.x, IF DOMAIN inner = {} THEN None ELSE inner["x"])          \* its attribute x, if any
    [] s.k = "copy" -> Set(env, s.x, env[s.ls[1].of])                                          \* what another name stands for now
    [] s.k = "again" -> Set(env, s.ls[1].of, [items |-> <<Value(s.ls[2])>>])                   \* an earlier name is given another value
    [] s.k = "if" -> IF s.how = "then" THEN RunAll(env, s.body) ELSE env
    [] s.k = "for" -> RunAll(env, s.body)
    [] OTHER -> env                                                                            \* comments, blank lines, bare texts
RunAll(env, ss) == IF ss = <<>> THEN env ELSE RunAll(Run(env, Head(ss)), Tail(ss))

(* ---- the setup of the page: packages, JavaScript modules and settings given, besides those always there ---- *)
Setups == [py : SUBSET {"plain", "apos", "amp"}, js : SUBSET {"plain", "apos"}, more : SUBSET {"apos", "cache"}, form : {"values", "text"}]
Configured(u) == [packages |-> {"reactpy", "jsonpointer"} \cup u.py, modules |-> {"morphdom"} \cup u.js, more |-> u.more]
=============================================================================
