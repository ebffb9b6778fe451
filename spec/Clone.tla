------------------------------- MODULE Clone --------------------------------
(* What becomes of an object (an event, usually) that is sent to the server as plain data.

   Objects are numbered; the first one is to be sent.  Each is of some class and has fields, items or elements of a form.
   A field is where it can be found: the object's own ("own"), of its class ("proto"), or not listed ("hidden"); reading it may
   fail ("bad", "badhidden"). *)
EXTENDS Naturals, Sequences, FiniteSets

Nodes == {"element", "input", "select", "form"}
Lists == {"array", "list"}
(* forms, selections and declaration blocks can be iterated like lists, but are none *)
Classes == {"event", "obj", "dataset", "style"} \cup Nodes \cup Lists
Obj(cls) == [cls |-> cls, fields |-> <<>>, items |-> <<>>, elements |-> <<>>]
Field(name, where, v) == [name |-> name, where |-> where, v |-> v]
Ref(i) == [t |-> "ref", i |-> i, s |-> ""]
Leaf(t) == [t |-> t, i |-> 0, s |-> ""]
Text(s) == [t |-> "str", i |-> 0, s |-> s]

Useless == {"null", "undef", "func", "window", "document", "sheet"}
Reserved == {"__x", "A_B", "AB", "view", "size", "length"}
(* these lead all over the document, or are costly *)
OfNodes == {"parentNode", "parentElement", "ownerDocument", "childNodes", "children", "firstChild", "nextSibling", "previousElementSibling",
            "innerHTML", "outerHTML", "offsetParent", "offsetWidth", "clientTop", "scrollHeight", "scrollLeft"}
Extra == <<"dataset", "value", "checked", "files", "type", "name">>

Range(s) == { s[i] : i \in DOMAIN s }
Max(a, b) == IF a > b THEN a ELSE b
Wanted(cls, name, v) == /\ v.t \notin Useless
                        /\ (cls # "dataset" => name \notin Reserved)
                        /\ (cls = "style" => v.t # "empty")
                        /\ (cls \in Nodes => name \notin OfNodes)
Stop == [k |-> "stop", v |-> "", s |-> "", of |-> <<>>]
Get(fs, name) == { f \in Range(fs) : f.name = name /\ f.where \in {"own", "proto", "hidden"} }
(* under which name an element of a form is to be found *)
NameOf(o) == LET f == Get(o.fields, "name") IN IF f = {} THEN "" ELSE (CHOOSE x \in f : TRUE).v.s

RECURSIVE Tree(_, _, _, _)
Val(g, v, left, path) == IF v.t = "ref" THEN Tree(g, v.i, left - 1, path) ELSE [k |-> "leaf", v |-> v.t, s |-> v.s, of |-> <<>>]
Items(g, items, left, p) == SelectSeq([j \in DOMAIN items |-> [n |-> "", tree |-> IF items[j].t \in Useless THEN Stop ELSE Val(g, items[j], left, p)]], LAMBDA x : x.tree # Stop)
Pairs(g, cls, fs, left, path, all) ==
  LET one(f) == [n |-> f.name, tree |-> IF f.where \in {"own", "proto"} /\ (IF all THEN f.v.t \notin Useless /\ f.name \notin Reserved ELSE Wanted(cls, f.name, f.v))
                                          THEN Val(g, f.v, left, path) ELSE Stop]
  IN SelectSeq([i \in DOMAIN fs |-> one(fs[i])], LAMBDA p : p.tree # Stop)
Has(ps, name) == \E p \in Range(ps) : p.n = name
RECURSIVE Extras(_, _, _, _, _, _)
Extras(g, o, left, path, ps, names) ==
  IF names = <<>> THEN ps
  ELSE LET name == Head(names)
           f == Get(o.fields, name)
           t == IF f = {} \/ Has(ps, name) THEN Stop
                ELSE LET v == (CHOOSE x \in f : TRUE).v IN
                     IF Wanted(o.cls, name, v) THEN Val(g, v, IF name = "files" THEN Max(left, 3) ELSE left, path) ELSE Stop
       IN Extras(g, o, left, path, IF t = Stop THEN ps ELSE Append(ps, [n |-> name, tree |-> t]), Tail(names))
RECURSIVE Elements(_, _, _, _, _)
Elements(g, es, left, path, ps) ==
  IF es = <<>> THEN ps
  ELSE LET name == NameOf(g[Head(es)])
           t == IF name = "" \/ Has(ps, name) THEN Stop ELSE Tree(g, Head(es), left - 1, path)
       IN Elements(g, Tail(es), left, path, IF t = Stop THEN ps ELSE Append(ps, [n |-> name, tree |-> t]))
(* an object within: not again within itself, and not deeper than allowed *)
Tree(g, i, left, path) ==
  IF left <= 0 \/ i \in path THEN Stop
  ELSE LET o == g[i]
           p == path \cup {i}
       IN IF o.cls \in Lists
          THEN [k |-> "list", v |-> "", s |-> "", of |-> Items(g, o.items, left, p)]
          ELSE [k |-> "obj", v |-> "", s |-> "",
                of |-> LET ps == Extras(g, o, left, p, Pairs(g, o.cls, o.fields, left, p, FALSE), Extra) IN
                       IF o.cls = "form" THEN Elements(g, o.elements, left, p, ps) ELSE ps]
(* the object that is sent; an event comes with what is selected, and a list is one *)
Selection(g, sel, max) ==
  CASE sel.t = "null" -> [k |-> "null", v |-> "", s |-> "", of |-> <<>>]
    [] OTHER -> [k |-> "selection", v |-> "", s |-> "", of |-> <<[n |-> "node", tree |-> IF sel.t = "ref" THEN Tree(g, sel.i, max - 1, {1}) ELSE Stop]>>]
Sent(g, sel, max) ==
  IF g[1].cls = "array" THEN [k |-> "list", v |-> "", s |-> "", of |-> Items(g, g[1].items, max, {1})] ELSE
  [k |-> "obj", v |-> "", s |-> "",
   of |-> SelectSeq(Pairs(g, g[1].cls, g[1].fields, max, {1}, TRUE), LAMBDA p : g[1].cls # "event" \/ p.n # "selection")
          \o (IF g[1].cls = "event" THEN <<[n |-> "selection", tree |-> Selection(g, sel, max)]>> ELSE <<>>)]

(* what is sent is never deeper than allowed (but for the files of an input) *)
RECURSIVE Deep(_)
Deep(t) == IF t.of = <<>> THEN 0 ELSE 1 + (LET ds == { Deep(p.tree) : p \in Range(t.of) } IN CHOOSE d \in ds : \A e \in ds : e <= d)
=============================================================================
