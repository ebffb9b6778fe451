----------------------------- MODULE ExportsGen -----------------------------
EXTENDS Exports, Json, Randomization, TLC
CONSTANTS Which, Mods
VARIABLES case
Mix(a, b) == LET x == (a + b * 7919 + 1) % 46337 IN (((x * x) % 46337) * 3 + x * 17 + b) % 46337
At(seq, s, n) == seq[1 + ((Mix(Mix(s, n), 77) \div 7) % Len(seq))]
One == <<"function", "async function", "generator", "class", "renamed", "namespace">>
Many == <<"let", "const", "var", "list", "lines", "from", "destructured", "minified">>
Default == <<"expression", "function", "class", "as", "from", "object">>
N(m, i, j) == "n" \o ToString(m) \o "_" \o ToString(i) \o "_$" \o ToString(j)
Statement(m, i, s) ==
  LET k == At(<<"one", "one", "many", "many", "many", "default", "none">>, s, 1)
      n == At(<<1, 2, 3>>, s, 2)
  IN CASE k = "one" -> [form |-> At(One, s, 3), names |-> {N(m, i, 1)}]
       [] k = "many" -> [form |-> At(Many, s, 3), names |-> {N(m, i, j) : j \in 1..n}]
       [] k = "default" -> [form |-> "default " \o At(Default, s, 3), names |-> {"default"}]
       [] k = "none" -> [form |-> At(<<"comment", "import", "local">>, s, 3), names |-> {}]
(* only one default each; modules fetched from a URL refer to others fetched from URLs *)
Module(m, s) ==
  LET at == IF m = 1 THEN At(<<"file", "url">>, s, 4) ELSE At(<<"file", "url", "url", "missing", "failing">>, s, 4)
      all == [i \in 1..At(<<0, 1, 1, 2, 3>>, s, 5) |-> At([k \in 1..Mods |-> k], s, 10 + i)]
      raw == [i \in 1..At(<<0, 1, 2, 3, 4>>, s, 6) |-> Statement(m, i, Mix(s, 20 + i))]
  IN [at |-> at, all |-> all, own |-> SelectSeq([i \in 1..Len(raw) |-> IF raw[i].names = {"default"} /\ \E j \in 1..(i - 1) : raw[j].names = {"default"} THEN [form |-> "local", names |-> {}] ELSE raw[i]], LAMBDA x : TRUE)]
Graph(s) == LET g == [m \in 1..Mods |-> Module(m, Mix(s, 100 + m))]
            IN [m \in 1..Mods |-> [g[m] EXCEPT !.all = IF g[m].at = "url" THEN SelectSeq(g[m].all, LAMBDA k : g[k].at # "file") ELSE @]]
Init == \E s \in RandomSubset(Which, 1..46000) :
          LET g == Graph(s)
              d == At(<<0, 1, 2, 3, 5, 5>>, s, 7)
          IN /\ case = [g |-> g, depth |-> d, names |-> Names(g, 1, d, TRUE)]
             /\ PrintT("HIST " \o ToJson(case))
Next == UNCHANGED case
(* more depth finds no fewer names *)
Sound == /\ Names(case.g, 1, case.depth, TRUE) \subseteq Names(case.g, 1, case.depth + 1, TRUE)
         /\ \A m \in 2..Mods : "default" \notin Names(case.g, m, 4, FALSE)
=============================================================================
