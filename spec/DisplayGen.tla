----------------------------- MODULE DisplayGen ------------------------------
EXTENDS Display, TLC, Json, Randomization
CONSTANTS MaxSize, Depth, Small
VARIABLES debug, want, shown, quiet, hist

RECURSIVE Used(_)
Used(t) == {ToString(t.u), t.key} \cup UNION { Used(t.kids[i]) : i \in DOMAIN t.kids }
U == LET used == Used(want)
         free(u) == ToString(u) \notin used /\ "k" \o ToString(u) \notin used
     IN CHOOSE u \in 10..90 : free(u) /\ \A v \in 10..(u - 1) : ~free(v)
K == "k" \o ToString(U)
Catalog == IF Small THEN { Text("t"), El(U, "p", K, <<>>), Comp(U, K, Text("c")) }
  ELSE { Text("s"), Text("t"), El(U, "p", "", <<>>), El(U, "p", "", <<Text("x")>>), El(U, "p", K, <<>>), [El(U, "div", K, <<Text("x")>>) EXCEPT !.id = TRUE, !.on = "e"],
         [El(U, "b", "", <<>>) EXCEPT !.id = TRUE, !.js = "stmt", !.at = "a"], [El(U, "input", "", <<>>) EXCEPT !.id = TRUE, !.on = "ep"], El(U, "input", K, <<>>),
         Frag(U, "", <<Text("y"), El(U, "i", "", <<>>)>>), Frag(U, K, <<El(U, "i", "", <<>>)>>), El(U, "script", K, <<Text("1")>>),
         Comp(U, "", El(U, "p", "", <<Text("z")>>)), Comp(U, K, [El(U, "p", "", <<>>) EXCEPT !.id = TRUE]), Comp(U, "", Text("c")), Comp(U, K, Frag(U, "", <<>>)),
         Comp(U, "", Comp(U + 100, "", El(U, "p", "", <<>>))), El(U, "div", "", <<El(U + 100, "p", K, <<>>), El(U + 200, "p", "q", <<Text("w")>>), El(U + 300, "b", "r", <<>>)>>) }
Starts == { Comp(0, "", El(1, "div", "", <<>>)) }
  \cup (IF Small THEN {} ELSE { Comp(0, "", Text("only")), Comp(0, "", Frag(1, "", <<El(2, "p", "", <<>>), Text("a")>>)),
         Comp(0, "", El(1, "ul", "", <<El(2, "li", "2", <<Text("a")>>), El(3, "li", "3", <<Text("b")>>), El(4, "li", "4", <<>>)>>)),
         Comp(0, "", Comp(1, "", El(2, "div", "", <<Comp(3, "3", El(4, "p", "", <<Text("a")>>)), Comp(5, "5", El(6, "p", "", <<Text("b")>>))>>))),
         Comp(0, "", El(1, "div", "", <<Comp(2, "", El(3, "p", "", <<Text("a")>>)), Comp(4, "", El(5, "b", "", <<>>)), [El(6, "p", "", <<>>) EXCEPT !.id = TRUE, !.on = "e"]>>)) })

Leaf(n) == n.k = "text" \/ n.tag \in {"input", "script"}
InScript(p) == p # <<>> /\ At(want, SubSeq(p, 1, Len(p) - 1)).tag = "script"
Siblings(p) == At(want, SubSeq(p, 1, Len(p) - 1)).kids
Tags == IF Small THEN {"p", "div"} ELSE {"p", "div", "b", "input"}
OpsOf(kind, p) ==
  LET n == At(want, p) IN
    CASE kind = "ins" -> { [op |-> "ins", p |-> p, i |-> i, node |-> x] : i \in 1..(Len(n.kids) + 1), x \in IF n.k \in {"el", "frag"} /\ ~Leaf(n) THEN Catalog ELSE {} }
      [] kind = "del" -> { [op |-> "del", p |-> p, i |-> i] : i \in IF n.k = "comp" \/ n.tag = "script" THEN {} ELSE DOMAIN n.kids }
      [] kind = "move" -> { [op |-> "move", p |-> p, i |-> i, j |-> j] : i, j \in IF n.k = "comp" THEN {} ELSE DOMAIN n.kids }
      [] kind = "body" -> { [op |-> "body", p |-> p, node |-> x] : x \in IF n.k = "comp" THEN Catalog ELSE {} }
      [] kind = "at" -> { [op |-> "at", p |-> p, v |-> v] : v \in IF n.k = "el" /\ n.tag # "script" /\ ~Small THEN {"", "a", "b", "style", "style2", "hidden"} ELSE {} }
      [] kind = "on" -> { [op |-> "on", p |-> p, v |-> v] : v \in IF n.k = "el" /\ n.id THEN {"", "e", "ep", "es", "eps"} ELSE {} }
      [] kind = "js" -> { [op |-> "js", p |-> p, v |-> v] : v \in IF n.k = "el" /\ n.id THEN {"", "stmt", "arrow"} ELSE {} }
      [] kind = "tag" -> { [op |-> "tag", p |-> p, v |-> v] : v \in IF n.k = "el" /\ n.tag # "script" THEN (IF n.kids = <<>> THEN Tags ELSE Tags \ {"input"}) ELSE {} }
      [] kind = "text" -> { [op |-> "text", p |-> p, v |-> v] : v \in IF n.k = "text" /\ ~InScript(p) /\ ~Small THEN {"", "a", "b"} ELSE {} }
      [] kind = "key" -> { [op |-> "key", p |-> p, v |-> v] : v \in IF n.k \in {"el", "frag", "comp"} /\ ~Small /\ n.tag # "script" /\ p # <<>> /\ At(want, SubSeq(p, 1, Len(p) - 1)).k # "comp" THEN {"", K} ELSE {} }
      [] kind = "fails" -> { [op |-> "fails", p |-> p] : x \in IF n.k = "comp" THEN {1} ELSE {} }
      [] OTHER -> {}
Kinds == {"ins", "del", "move", "body", "at", "on", "js", "tag", "text", "key", "fails", "fire"}
Ops(p) == UNION { OpsOf(kind, p) : kind \in Kinds }
(* what can be used: elements that are displayed *)
Fires == { [op |-> "fire", p |-> p, which |-> w] : p \in { p \in Paths(want) : At(want, p).id /\ \A q \in Prefixes(p) : ~At(want, q).fails }, w \in {"on", "js"} }
Usable(f) == LET n == At(want, f.p) IN IF f.which = "on" THEN n.on # "" ELSE n.js # ""

Log(d) == Cat([i \in DOMAIN d.kids |-> Dom(d.kids[i], debug)])
Init == \E t \in Starts : \E d \in (IF Small THEN {TRUE} ELSE BOOLEAN) :
          /\ debug = d /\ want = t /\ shown = New(t, 0, <<>>, "new") /\ quiet = FALSE
          /\ hist = <<[cfg |-> [debug |-> d], tree |-> t, dom |-> Dom(New(t, 0, <<>>, "new"), d)]>>
Change(o, q, later) ==
  /\ want' = Edit(want, o)
  /\ want' # want /\ Size(want') <= MaxSize
  /\ (quiet => q = <<>>)
  /\ (o.op = "key" => q # o.p)    \* keys are given by the component around
  /\ quiet' = later
  /\ shown' = IF later THEN shown ELSE Match(shown, want', Len(hist), <<>>)
  /\ hist' = Append(hist, [op |-> o, from |-> At(want, q).u, tree |-> want', later |-> later, dom |-> Dom(shown', debug)])
  /\ UNCHANGED debug
Fire(f) == /\ hist' = Append(hist, [op |-> f, u |-> At(want, f.p).u, js |-> At(want, f.p).js, on |-> At(want, f.p).on, dom |-> Dom(shown, debug)])
           /\ UNCHANGED <<debug, want, shown, quiet>>
Step == \/ \E p \in Paths(want) : \E o \in Ops(p) : \E q \in Owners(want, p) : \E later \in (IF Depth = 99 THEN {FALSE} ELSE BOOLEAN) : Change(o, q, later)
        \/ ~quiet /\ \E f \in Fires : Usable(f) /\ Fire(f)
Next == Step /\ PrintT("HIST " \o ToJson(hist'))
(* first what kind of change, then which, so that the many insertions don't crowd out the rest *)
Some(n, S) == IF Cardinality(S) <= n THEN S ELSE RandomSubset(n, S)
NextSim == /\ \E kind \in Some(6, Kinds) : \E p \in Some(3, Paths(want)) :
                \/ /\ kind # "fire"
                   /\ \E o \in Some(1, OpsOf(kind, p)) : \E q \in Some(1, Owners(want, p)) : \E later \in Some(1, BOOLEAN) :
                        (later => Len(hist) < Depth - 1) /\ Change(o, q, later)
                \/ /\ kind = "fire" /\ ~quiet /\ \E f \in { f \in Fires : f.p = p } : Usable(f) /\ Fire(f)
           /\ (Len(hist') = Depth => PrintT("HIST " \o ToJson(hist')))
View == <<debug, want, quiet>>
Good == quiet \/ Sound(want, shown)
=============================================================================
