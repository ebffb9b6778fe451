------------------------------ MODULE Display -------------------------------
(* What a browser shows of a tree of components while its content changes.

   The tree consists of components (numbered), elements, fragments and texts.  Programs change it, and
   some component (the one concerned or one around it) renders again; what is displayed then is always the
   current content.  Nodes of the document survive where the elements they stand for do: an element, or a
   component, with a key keeps its node wherever it moves within its parent, one without keeps it as long as it
   stays at its place among others without
   (unless texts and elements change places there).  A component that fails displays its error (or nothing). *)
EXTENDS Naturals, Sequences, FiniteSets

Blank == [k |-> "", u |-> 0, tag |-> "", key |-> "", at |-> "", id |-> FALSE, on |-> "", js |-> "", fails |-> FALSE, text |-> "", kids |-> <<>>]
El(u, tag, key, kids) == [Blank EXCEPT !.k = "el", !.u = u, !.tag = tag, !.key = key, !.kids = kids]
Frag(u, key, kids) == [Blank EXCEPT !.k = "frag", !.u = u, !.key = key, !.kids = kids]
Text(t) == [Blank EXCEPT !.k = "text", !.text = t]
Comp(u, key, body) == [Blank EXCEPT !.k = "comp", !.u = u, !.key = key, !.kids = <<body>>]

(* ---- trees ---- *)
Cat(ss) == LET RECURSIVE F(_) F(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o F(i + 1) IN F(1)
RECURSIVE At(_, _), Put(_, _, _), Paths(_), Size(_)
At(t, p) == IF p = <<>> THEN t ELSE At(t.kids[Head(p)], Tail(p))
Put(t, p, n) == IF p = <<>> THEN n ELSE [t EXCEPT !.kids[Head(p)] = Put(@, Tail(p), n)]
Paths(t) == {<<>>} \cup UNION { { <<i>> \o p : p \in Paths(t.kids[i]) } : i \in DOMAIN t.kids }
Size(t) == 1 + LET RECURSIVE S(_) S(i) == IF i > Len(t.kids) THEN 0 ELSE Size(t.kids[i]) + S(i + 1) IN S(1)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
With(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Prefixes(p) == { SubSeq(p, 1, n) : n \in 0..Len(p) }
(* the components that can render the change at p: those around it that are displayed *)
Owners(t, p) == { q \in Prefixes(p) : At(t, q).k = "comp" /\ \A r \in Prefixes(q) : r = q \/ ~At(t, r).fails }
Keys(ns) == { ns[i].key : i \in { i \in DOMAIN ns : ns[i].key # "" } }

(* ---- what is displayed: the nodes with the identity of what stands for them in the document; <<>>: any ---- *)
Class(n) == CASE n.k = "text" -> "text" [] n.fails -> "error" [] n.k = "el" -> n.tag [] OTHER -> "fragment"
Id(step, p, mode) == IF mode = "new" THEN <<step>> \o p ELSE <<>>
RECURSIVE New(_, _, _, _), Match(_, _, _, _), Kids(_, _, _, _)
New(n, step, p, mode) == [n |-> [n EXCEPT !.kids = <<>>], same |-> Id(step, p, mode),
                          kids |-> IF n.fails THEN <<>> ELSE [i \in DOMAIN n.kids |-> New(n.kids[i], step, p \o <<i>>, mode)]]
Match(d, n, step, p) ==
  CASE Class(d.n) # Class(n) -> New(n, step, p, "new")
    [] n.k # "el" /\ (d.n.k # n.k \/ (n.k = "comp" /\ d.n.u # n.u)) -> New(n, step, p, "any")
    [] OTHER -> [n |-> [n EXCEPT !.kids = <<>>], same |-> d.same, kids |-> IF n.fails THEN <<>> ELSE Kids(d.kids, n.kids, step, p)]
Kids(ds, ns, step, p) ==
  LET plain == /\ Keys(ns) = {} /\ \A i \in DOMAIN ds : ds[i].n.key = ""
               /\ \A i \in DOMAIN ds \cap DOMAIN ns : (ds[i].n.k = "text") = (ns[i].k = "text") IN
  [i \in DOMAIN ns |->
    LET n == ns[i]
        q == p \o <<i>>
        old == { j \in DOMAIN ds : ds[j].n.key = n.key } IN
    CASE n.key # "" -> IF old # {} THEN Match(ds[CHOOSE j \in old : TRUE], n, step, q) ELSE New(n, step, q, "new")
      [] plain /\ i \in DOMAIN ds -> Match(ds[i], n, step, q)
      [] OTHER -> New(n, step, q, "any")]

(* the document *)
RECURSIVE Dom(_, _)
Dom(d, debug) ==
  CASE d.n.k = "text" -> <<[text |-> d.n.text]>>
    [] d.n.fails -> IF debug THEN <<[error |-> d.n.u]>> ELSE <<>>
    [] d.n.k = "el" -> <<[tag |-> d.n.tag, u |-> d.n.u, at |-> d.n.at, id |-> d.n.id, on |-> d.n.on, js |-> d.n.js, same |-> d.same,
                          kids |-> Cat([i \in DOMAIN d.kids |-> Dom(d.kids[i], debug)])]>>
    [] OTHER -> Cat([i \in DOMAIN d.kids |-> Dom(d.kids[i], debug)])

(* ---- changes ---- *)
Edit(t, o) ==
  LET n == At(t, o.p) IN
  CASE o.op = "ins" -> Put(t, o.p, [n EXCEPT !.kids = With(@, o.i, o.node)])
    [] o.op = "del" -> Put(t, o.p, [n EXCEPT !.kids = Without(@, o.i)])
    [] o.op = "move" -> Put(t, o.p, [n EXCEPT !.kids = With(Without(@, o.i), o.j, n.kids[o.i])])
    [] o.op = "body" -> Put(t, o.p, [n EXCEPT !.kids = <<o.node>>])
    [] o.op = "at" -> Put(t, o.p, [n EXCEPT !.at = o.v])
    [] o.op = "on" -> Put(t, o.p, [n EXCEPT !.on = o.v])
    [] o.op = "js" -> Put(t, o.p, [n EXCEPT !.js = o.v])
    [] o.op = "tag" -> Put(t, o.p, [n EXCEPT !.tag = o.v])
    [] o.op = "text" -> Put(t, o.p, [n EXCEPT !.text = o.v])
    [] o.op = "key" -> Put(t, o.p, [n EXCEPT !.key = o.v])
    [] o.op = "fails" -> Put(t, o.p, [n EXCEPT !.fails = ~@])
    [] OTHER -> t

(* everything that is displayed is the current content, whatever it was before *)
RECURSIVE Bare(_), Shows(_)
Bare(t) == [n |-> [t EXCEPT !.kids = <<>>], kids |-> IF t.fails THEN <<>> ELSE [i \in DOMAIN t.kids |-> Bare(t.kids[i])]]
Shows(d) == [n |-> d.n, kids |-> [i \in DOMAIN d.kids |-> Shows(d.kids[i])]]
(* no two elements are displayed by one node of the document *)
RECURSIVE Ids(_), Elements(_)
Ids(d) == (IF d.n.k = "el" /\ d.same # <<>> THEN {d.same} ELSE {}) \cup UNION { Ids(d.kids[i]) : i \in DOMAIN d.kids }
Elements(d) == (IF d.n.k = "el" /\ d.same # <<>> THEN 1 ELSE 0)
               + LET RECURSIVE S(_) S(i) == IF i > Len(d.kids) THEN 0 ELSE Elements(d.kids[i]) + S(i + 1) IN S(1)
Sound(want, shown) == Shows(shown) = Bare(want) /\ Cardinality(Ids(shown)) = Elements(shown)
=============================================================================
