------------------------------ MODULE Imported ------------------------------
(* Components of JavaScript modules in the browser.

   The page has a row of elements of such components, with keys.  The module of an element is loaded when the
   element, or another source for it, is displayed first; then the component is bound to a place in the
   document, and displays what the last update says until the element is gone or has another source, when it is
   unmounted (once).  Until it is bound its fallback is displayed.  Children that are components of other
   modules are loaded and bound on their own, within it.
   Module C asks to be unmounted before every update.  It has the address of B, but is one of the server's.
   A component may be named that its module doesn't have: nothing is displayed for it.
   Handlers of components are called with whatever these give to them, events or not. *)
EXTENDS Naturals, Sequences, FiniteSets

Sources == {"A", "B", "C"}
Other(s) == CASE s = "A" -> "B" [] s = "B" -> "C" [] OTHER -> "A"
Again(s) == s = "C"
(* an element: its component, what it displays, and its child *)
Lost(c) == c.name \in {"Missing", "Other.Missing", "Gone.Inner", "Other.Gone.Deep"}
Nests(c) == c.kid = "other" /\ ~Lost(c)
(* what handlers are called with, and what of it reaches the server *)
Sent(a) == CASE a = "undefined" -> "null" [] OTHER -> a
(* a module may bind to a place in a way that can't be used: its elements display their fallback *)
Usable(bind) == bind \notin {"no-create", "no-render", "no-unmount"}

(* what the elements are: [key, c, st, nest]; done: what happened to bindings of each source *)
Begin == [row |-> <<>>, asked |-> {}, binds |-> <<>>, unmounts |-> <<>>]
Cat(ss) == LET RECURSIVE F(_) F(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o F(i + 1) IN F(1)
If(b, x) == IF b THEN <<x>> ELSE <<>>
(* what is unmounted with an element *)
Ends(e) == If(e.st = "bound", e.c.src) \o If(e.nest = "bound", Other(e.c.src))

Shown(old, i) ==     \* the element i after an update, and what is unmounted for it
  LET e == i
      was == { j \in DOMAIN old : old[j].key = e.key } IN
  IF was = {} THEN [e |-> [e EXCEPT !.st = "loading", !.nest = "none"], ends |-> <<>>]
  ELSE LET o == old[CHOOSE j \in was : TRUE] IN
       IF o.c.src # e.c.src THEN [e |-> [e EXCEPT !.st = "loading", !.nest = "none"], ends |-> Ends(o)]
       ELSE LET restarts == o.st = "bound" /\ Again(e.c.src)
                stays == o.nest # "none" /\ o.c.name = e.c.name /\ Nests(e.c) /\ ~restarts
            IN [e |-> [e EXCEPT !.st = o.st, !.nest = IF o.st # "bound" \/ ~Nests(e.c) THEN "none" ELSE IF stays THEN o.nest ELSE "loading"],
                ends |-> If(restarts, e.c.src) \o If(o.nest = "bound" /\ ~stays, Other(e.c.src))]
Asks(row) == { row[i].c.src : i \in { i \in DOMAIN row : row[i].st = "loading" } } \cup { Other(row[i].c.src) : i \in { i \in DOMAIN row : row[i].nest = "loading" } }
Update(st, row) ==
  LET got == [i \in DOMAIN row |-> Shown(st.row, row[i])]
      new == [i \in DOMAIN row |-> got[i].e]
      gone == SelectSeq(st.row, LAMBDA o : \A i \in DOMAIN row : row[i].key # o.key)
  IN [row |-> new, asked |-> st.asked \cup Asks(new), binds |-> <<>>,
      unmounts |-> Cat([i \in DOMAIN got |-> got[i].ends]) \o Cat([i \in DOMAIN gone |-> Ends(gone[i])])]
Load(st, s) ==
  LET bound(e) == [e EXCEPT !.st = IF @ = "loading" /\ e.c.src = s THEN "bound" ELSE @,
                            !.nest = CASE e.st = "loading" /\ e.c.src = s /\ Nests(e.c) -> "loading"
                                       [] @ = "loading" /\ Other(e.c.src) = s -> "bound" [] OTHER -> @]
      new == [i \in DOMAIN st.row |-> bound(st.row[i])]
  IN [row |-> new, asked |-> (st.asked \ {s}) \cup Asks(new), unmounts |-> <<>>,
      binds |-> Cat([i \in DOMAIN new |-> LET o == st.row[i] IN If(o.st # new[i].st, s) \o If(o.nest = "loading" /\ new[i].nest = "bound", s)])]
Fail(st, s) == [st EXCEPT !.asked = @ \ {s}, !.binds = <<>>, !.unmounts = <<>>,
                          !.row = [i \in DOMAIN @ |-> IF @[i].st = "loading" /\ @[i].c.src = s THEN [@[i] EXCEPT !.st = "failed"] ELSE @[i]]]
CanFail(st, s) == \A i \in DOMAIN st.row : ~(st.row[i].nest = "loading" /\ Other(st.row[i].c.src) = s)

Do(st, op) ==
  CASE op.op = "put" -> Update(st, IF \E i \in DOMAIN st.row : st.row[i].key = op.e.key
                                   THEN [i \in DOMAIN st.row |-> IF st.row[i].key = op.e.key THEN op.e ELSE st.row[i]]
                                   ELSE IF op.front THEN <<op.e>> \o st.row ELSE Append(st.row, op.e))
    [] op.op = "del" -> Update(st, SelectSeq(st.row, LAMBDA e : e.key # op.key))
    [] op.op = "load" -> IF op.usable THEN Load(st, op.src) ELSE Fail(st, op.src)
    [] op.op = "fail" -> Fail(st, op.src)
    [] OTHER -> [st EXCEPT !.binds = <<>>, !.unmounts = <<>>]

(* what is displayed *)
Node(tag, v, kids) == [tag |-> tag, v |-> v, kids |-> kids]
Tag(name) == IF name = "Main" THEN "main" ELSE "inner"
Kid(e) == CASE e.c.kid = "text" -> <<[text |-> e.c.v]>>
            [] e.c.kid = "el" -> <<Node("p", "", <<[text |-> e.c.v]>>)>>
            [] e.c.kid = "same" -> <<Node("inner", e.c.v \o "n", <<>>)>>
            [] e.c.kid = "fragment" -> <<[text |-> e.c.v], Node("inner", e.c.v \o "n", <<>>)>>
            [] e.c.kid = "lost" -> <<[text |-> e.c.v]>>
            [] e.c.kid = "other" -> <<Node("reactpy-child", "", <<Node("div", "", IF e.nest = "bound" THEN <<Node("main", e.c.v \o "n", <<>>)>> ELSE <<>>)>>)>>
            [] OTHER -> <<>>
Fallback(s) == CASE s = "A" -> <<Node("span", "", <<[text |-> "wait A"]>>)>>
                 [] s = "B" -> <<Node("em", "", <<[text |-> "wait B"]>>)>>
                 [] OTHER -> <<>>
Display(e) == IF e.st = "bound" THEN <<Node("span", "", IF Lost(e.c) THEN <<>> ELSE <<Node(Tag(e.c.name), e.c.v, Kid(e))>>)>>
              ELSE <<Node("span", "", <<>>)>> \o Fallback(e.c.src)
Dom(st) == Cat([i \in DOMAIN st.row |-> Display(st.row[i])])
Live(st, s) == LET e == [i \in DOMAIN st.row |-> If(st.row[i].st = "bound" /\ st.row[i].c.src = s, 1) \o If(st.row[i].nest = "bound" /\ Other(st.row[i].c.src) = s, 1)] IN Len(Cat(e))
Count(q, s) == Len(SelectSeq(q, LAMBDA x : x = s))
(* every binding is unmounted exactly once after its element; those of C once more for every update *)
Balanced(st, new, op) == \A s \in Sources : Live(new, s) + Count(new.unmounts, s) =
    Live(st, s) + Count(new.binds, s) + (IF Again(s) /\ op.op \in {"put", "del"}
        THEN Cardinality({ i \in DOMAIN new.row : new.row[i].st = "bound" /\ new.row[i].c.src = s /\ \E j \in DOMAIN st.row : st.row[j].key = new.row[i].key }) ELSE 0)
(* a module is asked for while something needs it *)
Sound(st) == Asks(st.row) \subseteq st.asked
=============================================================================
