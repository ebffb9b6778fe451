------------------------------- MODULE VdomGen ------------------------------
EXTENDS Vdom, Json, TLC, Randomization
CONSTANTS MaxArgs, Extra

VARIABLES case

Leaf(k) == [t |-> "leaf", k |-> k]
LeafKinds == {"str", "empty", "none", "num", "zero", "comp", "vdom", "map", "bool"}
Leaves == {Leaf(k) : k \in LeafKinds}
Few == {Leaf(k) : k \in {"str", "comp"}}
Iterables == {"list", "tuple", "gen", "set", "values", "deque"}
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
L1 == {[t |-> it, c |-> s] : it \in Iterables, s \in Seqs(Few, 1)} \cup {[t |-> it, c |-> s] : it \in {"list", "gen"}, s \in Seqs(Few, 2)}
      \cup {[t |-> it, c |-> <<l>>] : it \in {"list", "tuple", "gen"}, l \in Leaves}
L2 == {[t |-> it, c |-> s] : it \in {"list", "gen", "tuple"}, s \in Seqs({Leaf("str"), [t |-> "list", c |-> <<Leaf("str"), Leaf("vdom")>>],
                                                             [t |-> "gen", c |-> <<Leaf("num")>>], [t |-> "tuple", c |-> <<>>]}, 2)}
Trees == Leaves \cup L1 \cup L2
NoAt == [n \in {} |-> ""]
Ats1 == UNION {[{n} -> Kinds] : n \in Names}
SmallKinds == {"func", "handler", "text", "js", "none", "num"}
Ats2 == UNION {[{n, m} -> SmallKinds] : n, m \in {"onClick", "onclick", "key", "src", "data-x"}}
ArgsSmall == {<<>>, <<Leaf("str")>>, <<Leaf("comp")>>, <<Leaf("str"), Leaf("empty")>>, <<[t |-> "list", c |-> <<Leaf("str")>>]>>}

Case(c, h, at, args) == [ctor |-> c, hasat |-> h, at |-> at, args |-> args, want |-> Result(c, h, at, args)]

(* a plain mapping in the first place would be the attributes *)
Fits(h, args) == h \/ args = <<>> \/ args[1] # Leaf("map")

Inits ==
        \/ \E c \in Ctors, h \in BOOLEAN, args \in Seqs(Trees, 1) : case = Case(c, h, NoAt, args)
        \/ \E c \in {"div", "frag", "mod", "br"}, h \in BOOLEAN, args \in Seqs(Trees, MaxArgs) : case = Case(c, h, NoAt, args)
        \/ \E c \in Ctors, at \in Ats1, args \in {<<>>, <<Leaf("str")>>} : case = Case(c, TRUE, at, args)
        \/ \E c \in {"div", "script", "mod", "custom", "frag", "br"}, at \in Ats2, args \in ArgsSmall : case = Case(c, TRUE, at, args)
        \/ \E c \in {"div", "mod.Sub"}, args \in RandomSubset(Extra, [1..3 -> Trees]) : case = Case(c, TRUE, NoAt, args)
        \/ \E c \in {"div", "mod.Sub"}, args \in RandomSubset(Extra, [1..4 -> Trees]) : case = Case(c, FALSE, NoAt, args)
Init == Inits /\ Fits(case.hasat, case.args)
Next == PrintT("HIST " \o ToJson(case)) /\ UNCHANGED case

(* nothing given is lost or invented *)
Sound == LET w == case.want IN
         /\ w.attrs \cup w.handlers \cup w.inline = DOMAIN case.at
         /\ w.attrs \cap (w.handlers \cup w.inline) = {} /\ w.handlers \cap w.inline = {}
         /\ \A i, j \in 1..Len(w.children) : i # j => w.children[i] # w.children[j]
==============================================================================
