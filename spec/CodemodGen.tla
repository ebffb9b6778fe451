---------------------------- MODULE CodemodGen ------------------------------
EXTENDS Codemod, FiniteSets, Json, Randomization
CONSTANTS Depth
VARIABLES mode, indent, pool, stmts
Some(k, S) == IF Cardinality(S) <= k THEN S ELSE RandomSubset(k, S)

Contexts == {"expr", "assign", "return", "body", "oneline", "else", "semi", "semi2", "deco", "deco2", "asyncdeco", "default", "asyncdefault", "if", "with", "for",
             "try", "class", "async", "continued", "afterlong", "match", "annotation", "docstring"}
Formats == {"line", "args", "pairs", "comments", "odd"}
Stmt(ctx, fmt, of) == [ctx |-> ctx, fmt |-> fmt, of |-> of]
Map(how, pairs) == Node("map", "", how, pairs, <<>>, <<>>)
Leaves == { Const(c) : c \in Consts } \cup { Var("x") }
KeyNames == {"on_click", "max_line_height", "aria_x1_of_it", "on", "onClick", "data-user_id", "--my_var", "class_"}
AllNames == KeyNames \cup {"style", "**", "expr"}
OkPairs(how, ps) == /\ \A i, j \in DOMAIN ps : i # j => Name(ps[i].name) # Name(ps[j].name)
                    /\ \A i \in DOMAIN ps : /\ (how = "call" => ps[i].name \notin {"data-user_id", "--my_var", "expr"})
                                            /\ (how = "dict" => ps[i].name # "class_")
Styles == { Map(how, <<Pair(n, Const("text"))>>) : how \in {"dict", "other"}, n \in {"on_click", "on"} } \cup { Map("call", <<Pair(n, Const("text"))>>) : n \in {"on_click", "class_"} }
          \cup { Map("dict", <<Pair("--my_var", Const("num"))>>), Map("dict", <<Pair("style", Map("dict", <<Pair("on_click", Var("x"))>>))>>) }

(* every element with at most one attribute and child *)
Attrs == { <<"none", <<>>>>, <<"var", <<>>>>, <<"dict", <<>>>>, <<"call", <<>>>> }
         \cup { <<how, ps>> : how \in {"dict", "call"}, ps \in { <<Pair(n, v)>> : n \in KeyNames \cup {"**", "expr"}, v \in {Const("text"), Var("x")} } \cup { <<Pair("style", v)>> : v \in Styles \cup {Var("x")} } }
Inner == { Call(f, "dict", <<Pair("on_click", Const("num"))>>, <<>>, k) : f \in {"html.div", "todo"}, k \in {<<>>, <<Const("text")>>} }
Small == { Call(f, a[1], a[2], kids, key) : f \in Elements \cup Others, a \in { b \in Attrs : OkPairs(b[1], b[2]) },
                                            kids \in { <<>>, <<Const("hash")>>, <<Var("x")>>, <<Wrap("spread", <<Var("x")>>)>> }, key \in {<<>>, <<Const("text")>>} }
Placed == { Stmt("expr", "line", <<e>>) : e \in Small }
          \cup { Stmt(ctx, fmt, <<e>>) : ctx \in Contexts, fmt \in Formats, e \in { Call("html.div", "dict", <<Pair("on_click", Const(c))>>, <<d>>, <<Const("text")>>) : c \in Consts, d \in {Const("text"), Call("todo", "none", <<>>, <<>>, <<>>)} } }
          \cup { Stmt(ctx, fmt, <<Wrap(w, <<e, e>>)>>) : ctx \in {"expr", "assign", "asyncdeco"}, fmt \in Formats, w \in Wraps, e \in Inner }
          \cup { Stmt("assign", fmt, <<Call("html.div", how, <<>>, <<e, d, e>>, <<Const("text")>>)>>) : fmt \in Formats, how \in {"dict", "var"}, e \in Inner, d \in {Call("todo", "none", <<>>, <<>>, <<>>), Call("html.my_tag", "none", <<>>, <<Const("hash")>>, <<>>)} }

(* larger ones for the walks: expressions are made of those made before *)
Plain(n) == n.k = "const" /\ n.form \notin {"long", "fstr"}
Flat(n) == \/ n.k \in {"const", "var"} /\ n.form \notin {"long", "fstr"}
           \/ /\ n.k = "call"
              /\ \A i \in DOMAIN n.kids : Plain(n.kids[i])
              /\ \A i \in DOMAIN n.pairs : Plain(n.pairs[i].v)
              /\ \A i \in DOMAIN n.key : Plain(n.key[i])
Of(i) == pool[i]
Pools == IF pool = <<>> THEN {} ELSE { IF Len(pool) <= 4 THEN i ELSE Len(pool) - 4 + i : i \in 1..(IF Len(pool) < 4 THEN Len(pool) ELSE 4) }
NewWrap == \E w \in Some(1, Wraps), i, j \in Some(1, Pools) :
             pool' = Append(pool, Wrap(IF w = "interp" /\ ~(Flat(Of(i)) /\ Flat(Of(j))) THEN "list" ELSE w, <<Of(i), Of(j)>>))
NewLeaf == \E l \in Some(1, Leaves) : pool' = Append(pool, l)
NewCall == \E r \in Some(1, 1..4), f1 \in Some(1, Elements), f2 \in Some(1, Others), how \in Some(1, {"none", "dict", "call", "var"}), np \in Some(1, 0..2), nk \in Some(1, 0..3),
              n \in Some(1, AllNames), m \in Some(1, KeyNames), st \in Some(1, Styles), k \in Some(1, {"no", "leaf", "any"}), l \in Some(1, Leaves), c \in Some(1, Leaves),
              i, j, g, h \in Some(1, Pools) :
             LET first == Pair(n, IF n = "style" THEN st ELSE Of(i))
                 ps == IF how \in {"none", "var"} \/ np = 0 THEN <<>> ELSE IF np = 1 THEN <<first>> ELSE <<first, Pair(m, l)>>
                 kids == SubSeq(<<IF r = 1 /\ Of(j).k # "map" THEN Of(j) ELSE IF r = 2 /\ how # "none" THEN Wrap("spread", <<c>>) ELSE c, IF r = 3 THEN Wrap("spread", <<Of(g)>>) ELSE Of(g), Of(j)>>, 1, nk)
                 key == IF k = "no" THEN <<>> ELSE IF k = "leaf" THEN <<l>> ELSE <<Of(h)>>
             IN pool' = Append(pool, Call(IF r = 4 THEN f2 ELSE f1, how, IF OkPairs(how, ps) THEN ps ELSE <<>>, kids, key))

Reports(e) == [i \in DOMAIN e |-> Left(e[i])]
Show == "HIST " \o ToJson([mode |-> mode', indent |-> indent', stmts |-> stmts', want |-> File(mode', stmts'), same |-> Same(mode', stmts'),
                            left |-> [i \in DOMAIN stmts' |-> Reports(File(mode', stmts')[i].of)]])
Init == mode \in {"keys", "props"} /\ indent = "4" /\ stmts = <<>> /\ pool = <<>>
Next == /\ stmts = <<>> /\ UNCHANGED <<mode, indent, pool>>
        /\ \E s \in Placed : stmts' = <<s>>
        /\ PrintT(Show)
InitSim == mode \in {"keys", "props"} /\ indent \in {"4", "tab", "1"} /\ stmts = <<>> /\ pool = <<Const("text"), Var("x")>>
NextSim == \/ /\ Len(pool) < Depth /\ UNCHANGED <<mode, indent, stmts>>
              /\ \E r \in Some(1, 1..10) : IF r = 1 THEN NewLeaf ELSE IF r <= 3 THEN NewWrap ELSE NewCall
           \/ /\ Len(pool) = Depth /\ Len(stmts) < 5 /\ UNCHANGED <<mode, indent, pool>>
              /\ \E ctx \in Some(1, Contexts), fmt \in Some(1, Formats), i \in Some(1, 3..Depth) : stmts' = Append(stmts, Stmt(ctx, fmt, <<Of(i)>>))
              /\ (Len(stmts') = 5 => PrintT(Show))
Good == Once(mode, stmts)
=============================================================================
