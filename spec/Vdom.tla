-------------------------------- MODULE Vdom --------------------------------
(* What an element constructor makes of its arguments.

   An argument is a tree: a leaf (a child: text, None, number, component, element, plain mapping, ...)
   or an iterable (list, tuple, generator, ...) of trees.  Leaves are identified by their path, so that
   order and identity of the children are part of the meaning.  Attributes are a function from names
   to kinds of values. *)
EXTENDS Naturals, Sequences, FiniteSets

RECURSIVE Flat(_, _)
(* the leaves below a sequence of trees, in order, as paths *)
Flat(seq, path) ==
  LET F[i \in 0..Len(seq)] ==
        IF i = 0 THEN <<>>
        ELSE F[i - 1] \o (IF seq[i].t = "leaf" THEN << [path |-> Append(path, i), kind |-> seq[i].k] >>
                          ELSE Flat(seq[i].c, Append(path, i)))
  IN F[Len(seq)]

(* the names of attributes that look like events to the browser: "on" and an upper case letter and more *)
EventNames == {"onClick", "onX1", "onClick-x"}
Names == EventNames \cup {"onclick", "on_click", "onX", "on", "OnClick", "style", "key", "src", "data-x"}
Kinds == {"func", "afunc", "obj", "class", "handler", "text", "js", "dict", "none", "num", "bool", "list"}

Handlers(at) == {n \in DOMAIN at : at[n] \in {"func", "afunc", "obj", "class", "handler"}}
Inline(at)   == {n \in DOMAIN at : at[n] = "js" \/ (at[n] = "text" /\ n \in EventNames)}
Plain(at)    == DOMAIN at \ (Handlers(at) \cup Inline(at))

(* constructors: how they are reached, the tag they make and whether that may have children *)
Ctors == {"div", "del_", "data_table", "text_", "br", "input", "svg", "svg.g", "svg.circle", "svg.font_face",
          "svg.text_", "frag", "call", "script", "vdom", "mod", "mod.Sub", "mod.Sub.Two", "modvoid", "modvoid.Sub", "custom"}
Tag(c) == CASE c = "del_" -> "del" [] c = "data_table" -> "data-table" [] c = "text_" -> "text" [] c = "svg.g" -> "g"
            [] c = "svg.circle" -> "circle" [] c = "svg.font_face" -> "font-face" [] c = "svg.text_" -> "text"
            [] c \in {"frag", "call"} -> "" [] c = "vdom" -> "my-tag" [] c = "mod" -> "Mod" [] c = "mod.Sub" -> "Mod.Sub"
            [] c = "mod.Sub.Two" -> "Mod.Sub.Two" [] c = "modvoid" -> "Void" [] c = "modvoid.Sub" -> "Void.Sub"
            [] c = "custom" -> "my-custom" [] OTHER -> c
Void == {"br", "input", "svg.circle", "modvoid", "modvoid.Sub"}
Sources == {"mod", "mod.Sub", "mod.Sub.Two", "modvoid", "modvoid.Sub"}

(* a plain mapping in the first place is the attributes, anything else is a child *)
HasAttrs(x) == x.attrs # "no"

Result(c, hasat, at, args) ==
  LET base == IF hasat THEN 1 ELSE 0
      all == Flat(args, <<>>)
      ch  == [i \in 1..Len(all) |-> all[i].path]
      key == CASE "key" \in Plain(at) /\ at["key"] # "none" -> [from |-> "attr", path |-> <<>>]
               [] c = "script" /\ all # <<>> -> [from |-> "child", path |-> <<>>]
               [] c = "script" /\ all = <<>> /\ "src" \in Plain(at) /\ at["src"] # "none" -> [from |-> "src", path |-> <<>>]
               [] c = "script" /\ all = <<>> /\ "src" \in Plain(at) -> [from |-> "any", path |-> <<>>]
               [] OTHER -> [from |-> "any", path |-> <<>>]
      err == CASE c \in {"frag", "call"} /\ DOMAIN at \ {"key"} # {} -> "TypeError"
               [] c \in {"frag", "call"} /\ Handlers(at) # {} -> "TypeError"
               [] c \in {"frag", "call"} /\ Inline(at) # {} -> "TypeError"
               [] c = "script" /\ Handlers(at) # {} -> "ValueError"
               [] c = "script" /\ Len(all) > 1 -> "ValueError"
               [] c = "script" /\ Len(all) = 1 /\ all[1].kind \notin {"str", "empty"} -> "ValueError"
               [] c \in Void /\ all # <<>> -> "TypeError"
               [] OTHER -> "none"
  IN [err |-> err, tag |-> Tag(c), children |-> ch, attrs |-> Plain(at), handlers |-> Handlers(at), inline |-> Inline(at),
      key |-> key.from, source |-> c \in Sources]
=============================================================================
