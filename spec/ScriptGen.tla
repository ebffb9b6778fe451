----------------------------- MODULE ScriptGen ------------------------------
EXTENDS Script, Json, TLC, Randomization
CONSTANTS Depth
VARIABLES cfg, prog, env, breaks

Some(n, S) == IF Cardinality(S) <= n THEN S ELSE RandomSubset(n, S)
LitsOf(prefix, quote, n) == { Lit(prefix, quote, ps) : ps \in UNION {[1..m -> {p \in Pieces : Fits(prefix, quote, p)}] : m \in 0..n} }
(* for the walks *)
AnyLit(prefixes) == UNION { LET S == {p \in Pieces : Fits(pr, q, p)} IN
                            UNION { UNION { { Lit(pr, q, <<a>>), Lit(pr, q, <<a, b>>), Lit(pr, q, <<b, "a", a>>) } : b \in Some(1, S) } : a \in Some(1, S) }
                            : pr \in Some(1, prefixes), q \in Some(1, Quotes) }
OneLit(prefixes) == Some(1, AnyLit(prefixes))

Name == "x" \o ToString(Cardinality(DOMAIN env))
Kinds == {"let", "list", "cat", "fmt", "def", "class", "if", "for", "comment", "blank", "bare"}
How(k) == CASE k = "let" -> {"plain", "paren", "next", "trailing", "semi", "continued", "annotated"}
            [] k = "list" -> {"line", "lines", "comments", "blanks", "closing"}
            [] k = "cat" -> {"adjacent", "plus", "continued"}
            [] k = "def" -> {"plain", "line", "async", "typed"}
            [] k = "if" -> {"then", "else"}
            [] k = "comment" -> {"own", "indented", "empty", "many"}
            [] k = "blank" -> {"none", "spaces", "many", "formfeed"}
            [] OTHER -> {"plain"}
T == {"", "r", "f"}
RECURSIVE Made(_, _, _)
(* some statements of a kind, in the walks *)
Made(k, x, deep) ==
  CASE k = "let" -> { Stmt(k, x, <<l>>, <<>>, h) : l \in OneLit(Prefixes), h \in Some(1, How(k)) }
    [] k = "copy" -> { Stmt(k, x, <<[of |-> y]>>, <<>>, "plain") : y \in Some(1, DOMAIN env) }
    [] k = "again" -> { Stmt(k, x, <<[of |-> y], l>>, <<>>, "plain") : y \in Some(1, DOMAIN env), l \in OneLit(Prefixes) }
    [] k = "list" -> { Stmt(k, x, <<l, m>>, <<>>, h) : l, m \in OneLit(Prefixes), h \in Some(1, How(k)) }
    [] k = "cat" -> { Stmt(k, x, <<l, m>>, <<>>, h) : l, m \in OneLit(T), h \in Some(1, How(k)) }
    [] k = "fmt" -> { Stmt(k, x, <<l, m>>, <<>>, "plain") : l \in OneLit({"f"}), m \in OneLit({"", "r"}) }
    [] k \in {"def", "class"} -> { Stmt(k, x, ls, b, h) : h \in Some(1, How(k)), ls \in { <<>> } \cup { <<l>> : l \in OneLit({"", "r"}) },
                                   b \in {<<>>} \cup { b1 \o b2 : b1 \in {<<>>} \cup { <<s>> : s \in UNION { Made(kk, "x", deep - 1) : kk \in Some(1, IF deep > 0 THEN Kinds ELSE {"let", "comment", "bare", "blank"}) } },
                                                                 b2 \in { <<s>> : s \in UNION { Made(kk, "x", deep - 1) : kk \in Some(1, IF deep > 0 THEN Kinds ELSE {"let", "list"}) } } } }
    [] k \in {"if", "for"} -> { Stmt(k, x, <<>>, <<s>>, h) : h \in Some(1, How(k)), s \in UNION { Made(kk, x, deep - 1) : kk \in Some(2, {"let", "fmt", "bare", "comment"}) } }
    [] OTHER -> { Stmt(k, x, IF k = "bare" THEN <<l>> ELSE <<>>, <<>>, h) : l \in OneLit(Prefixes), h \in Some(1, How(k)) }

(* every statement with every text of at most two pieces *)
All(k, x) ==
  CASE k = "let" -> { Stmt(k, x, <<l>>, <<>>, "plain") : l \in UNION { LitsOf(p, q, 2) : p \in {"", "f"}, q \in {"2", "222"} } \cup UNION { LitsOf(p, q, 1) : p \in Prefixes, q \in Quotes } }
                    \cup { Stmt(k, x, <<l>>, <<>>, h) : l \in UNION { LitsOf(p, q, 1) : p \in {""}, q \in Quotes }, h \in How(k) }
    [] k = "list" -> { Stmt(k, x, <<l, l>>, <<>>, h) : l \in LitsOf("", "222", 1), h \in How(k) }
    [] k = "cat" -> { Stmt(k, x, <<l, m>>, <<>>, h) : l, m \in LitsOf("", "2", 1), h \in How(k) }
    [] k = "fmt" -> { Stmt(k, x, <<l, m>>, <<>>, "plain") : l \in UNION { LitsOf("f", q, 1) : q \in {"2", "222"} }, m \in LitsOf("", "2", 1) }
    [] k \in {"def", "class"} -> { Stmt(k, x, ls, b, h) : h \in How(k), ls \in { <<>> } \cup { <<l>> : l \in UNION { LitsOf(p, q, 1) : p \in {"", "r"}, q \in Quotes } },
                                   b \in {<<>>, <<Stmt("comment", "x", <<>>, <<>>, "own")>>, <<Stmt("let", "x", <<Lit("", "2", <<"hash">>)>>, <<>>, "plain")>>} }
    [] k \in {"if", "for"} -> { Stmt(k, x, <<>>, <<Stmt(kk, x, <<l>>, <<>>, "plain")>>, h) : kk \in {"let", "bare"}, l \in LitsOf("", "222", 1), h \in How(k) }
    [] OTHER -> { Stmt(k, x, IF k = "bare" THEN <<l>> ELSE <<>>, <<>>, h) : l \in IF k = "bare" THEN UNION { LitsOf(p, q, 1) : p \in Prefixes, q \in Quotes } ELSE {0}, h \in How(k) }

Routes == {"page", "tag", "component"}
Configs == [route : Routes, indent : {"4", "2", "tab"}, end : {"newline", "none", "comment", "blank"}, root : {"root", "main_1"}, style : {"plain", "typed", "docstring"}, setup : Setups]
Covered == [route : {"page", "component"}, indent : {"4"}, end : {"newline"}, root : {"root"}, style : {"plain"},
            setup : {[py |-> {}, js |-> {}, more |-> {}, form |-> "values"]}]
Start(c) == cfg = c /\ prog = <<>> /\ env = [n \in {} |-> None] /\ breaks = {}
Init == \E c \in Covered : Start(c)
InitSim == \E c \in Some(400, Configs) : Start(c)
Show(p, e, b) == "HIST " \o ToJson([cfg |-> cfg, prog |-> p, env |-> e, breaks |-> b, want |-> Configured(cfg.setup)])
Add(s) == /\ prog' = Append(prog, s) /\ env' = Run(env, s) /\ UNCHANGED cfg
Next == /\ Len(prog) < Depth
        /\ \E k \in Kinds : \E s \in All(k, Name) : Add(s) /\ UNCHANGED breaks
        /\ PrintT(Show(prog', env', breaks'))
NextSim == /\ Len(prog) < Depth
           /\ \E k \in Some(4, Kinds \cup {"copy", "again"}) : \E s \in Some(2, Made(k, Name, 2)) : Add(s) /\ breaks' \in Some(1, {breaks, breaks, breaks \cup {Len(prog')}})
           /\ (Len(prog') = Depth => PrintT(Show(prog', env', breaks')))
(* names are given once, and what the files mean doesn't depend on how they are cut into statements run earlier and later *)
Good == env = RunAll([n \in {} |-> None], prog)
=============================================================================
