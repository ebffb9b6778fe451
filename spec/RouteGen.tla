------------------------------ MODULE RouteGen ------------------------------
(* Histories: an application is made, routes and files come and go, and every request of a set is made. *)
EXTENDS Route, Json, TLC, Randomization
CONSTANTS Depth, Each
VARIABLES st, hist

PathPrefixes == { <<"/", "reactpy", "/">>, <<"/">>, <<"/", "a+b", "/">>, <<"/", "x", "/", "y.z", "/">>, <<"/", "(p", "/">> }
Modes == {"middleware", "standalone", "csr"}
Mods == {<<"m.js">>, <<"d", "/", "m.js">>, <<"u(v).js">>}
Tails == { <<>>, <<"static", "/">>, <<"static">>, <<"static", "/", "here.css">>, <<"static", "/", "no.css">>, <<"statics", "/", "here.css">>,
           <<"modules", "/">>, <<"modules">>, <<"modules", "/", "m.js">>, <<"modules", "/", "d", "/", "m.js">>, <<"modules", "/", "d">>,
           <<"modules", "/", "u(v).js">>, <<"modules", "/", "..", "/", "secret">>, <<"modules", "/", "d", "/", "..", "/", "..", "/", "secret">>,
           <<"verif_app.a", "/">>, <<"verif_app.a">>, <<"verif_app.b", "/">>, <<"verif_app.c", "/">>, <<"nodot", "/">>, <<"a-b", "/">>,
           <<"verif_app.a", "/", "verif_app.b", "/">>, <<"verif_app.a", "/", "/">>, <<"x", "/", "y">>, <<"x">>, <<"é w", "/">> }
Outer == { <<>>, <<"/">>, <<"/", "x">>, <<"/", "x", "/">>, <<"/", "x", "/", "y">>, <<"/", "page">>, <<"/", "pages">>, <<"/", "reactpy">>, <<"/", "a", "/", "y.z", "/">>,
           <<"/", "aab", "/", "verif_app.a", "/">>, <<"/", "x", "/", "yxz", "/", "verif_app.a", "/">>, <<"/", "aab", "/", "static", "/", "here.css">>,
           <<"/", "aab", "/">>, <<"/", "x", "/", "yxz", "/">> }
Paths(pre) == {pre \o t : t \in Tails} \cup Outer
Pats == { {<<"/", "x">>}, {<<"/", "x", "/", "SEG">>}, {<<"/", "ANY">>}, {<<"/", "page">>, <<"/", "x", "/">>}, {<<"/", "SEG">>}, {<<"ANY", "/", "y">>},
          {<<"/", "reactpy", "/", "ANY">>}, {<<"/", "x", "/">>, <<"/", "SEG", "/", "ANY">>} }
(* "/b" of <<"modules","/b">> has the static file of the library *)
Init == \E m \in Modes, p \in PathPrefixes :
          /\ st = [mode |-> m, prefix |-> p, routes |-> <<>>, lifespan |-> FALSE, roots |-> {"verif_app.a", "verif_app.b"},
                   files |-> {<<"static", <<"here.css">>, 1>>}]
          /\ hist = << [op |-> [op |-> "make", mode |-> m, prefix |-> p], seen |-> <<"ok", 0>>] >>

Types == {"http", "websocket"}
Requests(s) == SetToSeq(({[op |-> "request", type |-> t, path |-> p] : t \in Types, p \in Paths(s.prefix)})
                        \cup {[op |-> "request", type |-> "lifespan", path |-> <<>>]})
Log(s, ops) == [i \in 1..Len(ops) |-> [op |-> ops[i], seen |-> Seen(s, ops[i])]]
Some(s) == LET all == Requests(s) IN IF Each = 0 THEN all ELSE SetToSeq(RandomSubset(Each, ToSet(all)))

Changes == {[op |-> "route", type |-> t, pat |-> p] : t \in Types, p \in Pats}
           \cup {[op |-> "write", file |-> f, v |-> v] : f \in Mods, v \in {2, 3}}
           \cup {[op |-> "remove", file |-> f] : f \in Mods} \cup {[op |-> "lifespan"]}
Can(s, c) == CASE c.op = "route" -> s.mode # "middleware" /\ \A i \in 1..Len(s.routes) : s.routes[i] # [type |-> c.type, pat |-> c.pat]
               [] c.op = "lifespan" -> s.mode # "middleware"
               [] c.op = "remove" -> \E x \in s.files : x[1] = "modules" /\ x[2] = c.file
               [] OTHER -> TRUE

Changed(h) == Len(SelectSeq(h, LAMBDA x : x.op.op # "request"))
Change(c) == LET s2 == Do(st, c)
                 h2 == hist \o (IF Len(hist) = 1 THEN Log(st, Some(st)) ELSE <<>>) \o Log(st, <<c>>) \o Log(s2, Some(s2))
             IN st' = s2 /\ hist' = h2 /\ (Changed(h2) = Depth => PrintT("HIST " \o ToJson(h2)))
Next == Changed(hist) < Depth /\ \E c \in Changes : Can(st, c) /\ Change(c)
NextSim == Changed(hist) < Depth /\ Change(RandomElement({c \in Changes : Can(st, c)}))

(* a request has one answer, and what belongs to the library is not answered by the user's code *)
Sound == \A t \in Types, p \in Paths(st.prefix) :
           /\ (t = "http" /\ IsPrefix(st.prefix \o <<"static", "/">>, p) => Answer(st, t, p)[1] \in {"static", "missing"})
           /\ (t = "http" /\ IsPrefix(st.prefix \o <<"modules", "/">>, p) => Answer(st, t, p)[1] \in {"modules", "missing"})
           /\ (~IsPrefix(st.prefix, p) => Answer(st, t, p)[1] \in {"user", "route", "index", "refused"})
=============================================================================
