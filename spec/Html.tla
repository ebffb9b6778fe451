-------------------------------- MODULE Html --------------------------------
(* HTML text and elements: what string_to_reactpy makes of a document and what reactpy_to_string makes
   of elements.

   A node of a document is [tag |-> "#", text |-> ...] or
   [tag, attrs (set of <<name, value>>), style (sequence of <<css property, value>>), on (inline
   JavaScript or ""), kids (sequence)]; "on" is the value of a boolean attribute that is there.
   An element is the same with the names React uses, "key" (or "") and click (whether clicking is
   intercepted).  Values of its attributes: "on", "off", "none", or "=" followed by the text. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Text(s) == [tag |-> "#", text |-> s]
El(tag, attrs, kids) == [tag |-> tag, attrs |-> attrs, style |-> <<>>, on |-> "", kids |-> kids]

Booleans == {"hidden", "disabled", "readonly", "checked", "controls", "required", "multiple", "selected"}
Renamed == [class |-> "className", for |-> "htmlFor", tabindex |-> "tabIndex", maxlength |-> "maxLength",
            readonly |-> "readOnly", checked |-> "defaultChecked"]
ReactName(a) == IF a \in DOMAIN Renamed THEN Renamed[a] ELSE a
HtmlName(a) == IF \E n \in DOMAIN Renamed : Renamed[n] = a THEN CHOOSE n \in DOMAIN Renamed : Renamed[n] = a
               ELSE IF a = "defaultValue" THEN "value" ELSE a
Styles == ("background-color" :> "backgroundColor") @@ ("color" :> "color") @@ ("--my-Var" :> "--my-Var") @@ ("-webkit-foo" :> "WebkitFoo")
          @@ ("-ms-foo" :> "msFoo") @@ ("background" :> "background")
CssName(r) == CHOOSE c \in DOMAIN Styles : Styles[c] = r

Has(n, a) == \E x \in n.attrs : x[1] = a
Get(n, a) == IF Has(n, a) THEN (CHOOSE x \in n.attrs : x[1] = a)[2] ELSE ""
IsEl(n) == n.tag # "#"
Field(n) == IsEl(n) /\ n.tag \in {"input", "select", "textarea"}

RECURSIVE TextOf(_)
TextOf(kids) == IF kids = <<>> THEN "" ELSE (IF IsEl(kids[1]) THEN "" ELSE kids[1].text) \o TextOf(Tail(kids))
OptionValue(o) == IF Has(o, "value") THEN Get(o, "value") ELSE TextOf(o.kids)

(* all options below a node, in order *)
RECURSIVE Options(_)
Options(kids) == IF kids = <<>> THEN <<>>
                 ELSE (IF ~IsEl(kids[1]) THEN <<>> ELSE IF kids[1].tag = "option" THEN <<kids[1]>> ELSE Options(kids[1].kids)) \o Options(Tail(kids))

NamedKey(n) == Field(n) /\ Has(n, "name") /\ ~Has(n, "id") /\ ~Has(n, "key")
(* siblings: the key a node gets from its attributes *)
KeyOf(n, siblings) ==
  IF Has(n, "key") THEN Get(n, "key")
  ELSE IF Has(n, "id") THEN Get(n, "id")
  ELSE IF NamedKey(n) /\ Cardinality({i \in 1..Len(siblings) : NamedKey(siblings[i]) /\ Get(siblings[i], "name") = Get(n, "name")}) <= 1 THEN Get(n, "name")
  ELSE ""

(* ------------------------------------------------------------------ from HTML *)
RECURSIVE React(_, _, _, _)
React(n, siblings, inSelect, intercept) ==
  IF ~IsEl(n) THEN n
  ELSE LET chosen == SelectSeq(Options(n.kids), LAMBDA o : Has(o, "selected"))
           own == {<<ReactName(x[1]), IF x[1] \in Booleans THEN "on" ELSE "=" \o x[2]>> : x \in {y \in n.attrs : y[1] # "key" /\ ~(n.tag = "option" /\ inSelect /\ y[1] \in {"selected", "value"}) /\ ~(n.tag = "input" /\ y[1] = "value")}}
           value == CASE n.tag = "input" /\ Has(n, "value") -> {<<"defaultValue", "=" \o Get(n, "value")>>}
                      [] n.tag = "textarea" /\ TextOf(n.kids) # "" -> {<<"defaultValue", "=" \o TextOf(n.kids)>>}
                      [] n.tag = "option" /\ inSelect -> {<<"value", "=" \o OptionValue(n)>>}
                      [] OTHER -> {}
       IN [tag |-> n.tag, attrs |-> own \cup value,
           (* the initial value of a selection, in order *)
           chosen |-> IF n.tag # "select" THEN <<>> ELSE IF Has(n, "multiple") THEN [i \in 1..Len(chosen) |-> OptionValue(chosen[i])]
                      ELSE IF chosen = <<>> THEN <<>> ELSE <<OptionValue(chosen[Len(chosen)])>>,
           style |-> [i \in 1..Len(n.style) |-> <<Styles[n.style[i][1]], n.style[i][2]>>],
           on |-> n.on, click |-> (n.tag = "a" /\ intercept), key |-> KeyOf(n, siblings),
           kids |-> IF n.tag = "textarea" THEN <<>> ELSE [i \in 1..Len(n.kids) |-> React(n.kids[i], n.kids, inSelect \/ n.tag = "select", intercept)]]

(* -------------------------------------------------------------------- to HTML *)
Dashed(a) == a \in {"data-b", "aria-c"}
HtmlValue(a, v) == IF v = "on" THEN IF Dashed(a) THEN "true" ELSE "on" ELSE IF v = "off" THEN "false" ELSE SubSeq(v, 2, Len(v))
RECURSIVE Merge(_)
Merge(kids) == IF Len(kids) < 2 THEN SelectSeq(kids, LAMBDA k : IsEl(k) \/ k.text # "")
               ELSE IF ~IsEl(kids[1]) /\ kids[1].text = "" THEN Merge(Tail(kids))
               ELSE IF ~IsEl(kids[1]) /\ ~IsEl(kids[2]) THEN Merge(<<Text(kids[1].text \o kids[2].text)>> \o SubSeq(kids, 3, Len(kids)))
               ELSE <<kids[1]>> \o Merge(Tail(kids))
RECURSIVE Flat(_)
Flat(lists) == IF lists = <<>> THEN <<>> ELSE lists[1] \o Flat(Tail(lists))

RECURSIVE Markup(_, _)
(* the nodes an element becomes; chosen: the values selected in the selection it is in *)
Markup(e, chosen) ==
  IF e.tag = "#none" THEN <<>>
  ELSE IF ~IsEl(e) THEN <<e>>
  ELSE LET mine == IF e.tag = "select" THEN ToSet(e.chosen) ELSE chosen
           inner == Merge(Flat([i \in 1..Len(e.kids) |-> Markup(e.kids[i], mine)]))
           shown == {x \in e.attrs : x[2] # "none" /\ (x[2] = "off" => Dashed(x[1]))}
           plain == {<<HtmlName(x[1]), HtmlValue(x[1], x[2])>> : x \in {y \in shown : ~(e.tag = "textarea" /\ HtmlName(y[1]) = "value")}}
           text == {HtmlValue(x[1], x[2]) : x \in {y \in shown : HtmlName(y[1]) = "value"}}
           sel == IF e.tag = "option" /\ (IF \E x \in plain : x[1] = "value" THEN (CHOOSE x \in plain : x[1] = "value")[2] ELSE TextOf(inner)) \in chosen
                  THEN {<<"selected", "on">>} ELSE {}
       IN IF e.tag = "" THEN inner
          ELSE <<[tag |-> e.tag, attrs |-> plain \cup sel,
                  style |-> [i \in 1..Len(e.style) |-> <<CssName(e.style[i][1]), e.style[i][2]>>], on |-> "",
                  kids |-> IF e.tag = "textarea" /\ text # {} THEN LET t == CHOOSE t \in text : TRUE IN IF t = "" THEN <<>> ELSE <<Text(t)>> ELSE inner]>>

(* ------------------------------------------------- there and back: nothing is lost *)
RECURSIVE Kept(_, _)
Kept(n, first) ==   \* first: the value selected where only one can be
  IF ~IsEl(n) THEN n
  ELSE LET chosen == SelectSeq(Options(n.kids), LAMBDA o : Has(o, "selected"))
           one == IF n.tag = "select" THEN IF Has(n, "multiple") THEN [some |-> {OptionValue(chosen[i]) : i \in 1..Len(chosen)}]
                                           ELSE [some |-> IF chosen = <<>> THEN {} ELSE {OptionValue(chosen[Len(chosen)])}]
                  ELSE first
       IN [n EXCEPT !.attrs = IF n.tag = "option" /\ first.some # {"outside"}
                              THEN {x \in @ : x[1] \notin {"selected", "key", "value"}} \cup {<<"value", OptionValue(n)>>}
                                   \cup (IF OptionValue(n) \in first.some THEN {<<"selected", "on">>} ELSE {})
                              ELSE {x \in @ : x[1] # "key"},
                    !.on = "", !.kids = [i \in 1..Len(@) |-> Kept(@[i], one)]]
=============================================================================
