------------------------------ MODULE HtmlGen -------------------------------
EXTENDS Html, Json, Randomization
CONSTANTS Deep, Wide, Which
VARIABLES case
T == {"x", " y ", "é & <b>", "a\n b", "0"}
Attr == {<<"class", "a b">>, <<"title", "t\"'<&">>, <<"data-b", "1">>, <<"aria-c", "">>, <<"tabindex", "2">>, <<"hidden", "on">>, <<"x-y", "z">>, <<"key", "k">>}
Decl == {<<"color", "red !important">>, <<"background-color", "blue">>, <<"--my-Var", "1px">>, <<"-webkit-foo", "b">>, <<"-ms-foo", "c">>,
         <<"background", "url(data:a;base64,x)">>}
Sub(S, k) == SetToSeq({x \in SUBSET S : Cardinality(x) <= k /\ \A y, z \in x : y[1] = z[1] => y = z})
(* all choices are made by numbers that follow from a seed: s the seed, n which choice *)
Mix(a, b) == LET x == (a + b * 7919 + 1) % 46337 IN (((x * x) % 46337) * 3 + x * 17 + b) % 46337
At(seq, s, n) == seq[1 + ((Mix(Mix(s, n), 77) \div 7) % Len(seq))]
(* constant, hence computed once *)
Texts == SetToSeq(T)
Attrs == Sub(Attr, 2)
Decls == Sub(Decl, 3)
FieldAttrs == Sub({<<"type", "radio">>, <<"name", "n1">>, <<"name", "n2">>, <<"value", "w">>, <<"checked", "on">>, <<"disabled", "on">>, <<"readonly", "on">>, <<"maxlength", "5">>, <<"required", "on">>}, 3)
AreaAttrs == Sub({<<"name", "n1">>, <<"class", "c">>}, 2)
SelectAttrs == Sub({<<"name", "n1">>, <<"multiple", "on">>}, 2)
OptAttrs == Sub({<<"value", "v1">>, <<"class", "o">>, <<"selected", "on">>}, 3)
LinkAttrs == Sub({<<"href", "/x?y=1&z">>, <<"class", "l">>}, 2)
ButtonAttrs == Sub({<<"disabled", "on">>, <<"title", "b">>}, 2)
Id(s, p) == IF At(<<1, 2, 3, 4>>, s, 1) = 1 THEN {<<"id", p>>} ELSE {}
Styled(n, s) == IF At(<<1, 2, 3>>, s, 2) = 1 THEN [n EXCEPT !.style = SetToSeq(At(Decls, s, 3))] ELSE n
Opt(s) == El("option", At(OptAttrs, s, 4), At(<< <<>>, <<Text("one")>>, <<Text("é")>> >>, s, 5))
RECURSIVE Node(_, _, _)
(* p: the place, for ids *)
Kids(s, d, n, p) == LET raw == [i \in 1..n |-> Node(Mix(s, 20 + i), d, p \o ToString(i))]
                 IN \* no two texts next to each other: they would be one
                    [i \in 1..n |-> IF i > 1 /\ raw[i].tag = "#" /\ raw[i - 1].tag = "#" THEN El("br", {}, <<>>) ELSE raw[i]]
Node(s, d, p) ==
  LET k == At(IF d = 0 THEN <<"text", "void", "field", "area">> ELSE <<"text", "text", "void", "field", "field", "area", "select", "link", "button", "box", "box", "box">>, s, 6)
  IN CASE k = "text" -> Text(At(Texts, s, 7))
       [] k = "void" -> El(At(<<"br", "hr", "img", "my-el">>, s, 7), At(Attrs, s, 8) \cup Id(s, p), <<>>)
       [] k = "field" -> El("input", At(FieldAttrs, s, 8) \cup Id(s, p), <<>>)
       [] k = "area" -> El("textarea", At(AreaAttrs, s, 8) \cup Id(s, p), At(<< <<>>, <<Text("x <b> é")>> >>, s, 7))
       [] k = "select" -> LET os == [i \in 1..At(<<0, 1, 2, 3>>, s, 7) |-> Opt(Mix(s, 30 + i))]
                          IN El("select", At(SelectAttrs, s, 8) \cup Id(s, p), IF At(<<1, 2, 3>>, s, 9) = 1 THEN <<El("optgroup", {<<"label", "g">>}, os)>> ELSE os)
       [] k = "link" -> [El("a", At(LinkAttrs, s, 8) \cup Id(s, p), <<Text("link")>>) EXCEPT !.on = At(<<"", "f('x')">>, s, 7)]
       [] k = "button" -> [El("button", At(ButtonAttrs, s, 8) \cup Id(s, p), <<Text("push")>>) EXCEPT !.on = At(<<"", "this.x = '<'">>, s, 7)]
       [] k = "box" -> Styled(El(At(<<"div", "section", "span", "main", "my-box">>, s, 7), At(Attrs, s, 8) \cup Id(s, p), Kids(s, d - 1, At([i \in 1..(Wide + 1) |-> i - 1], s, 9), p)), s)
Document(s) == El("div", {}, Kids(s, Deep, 1 + (s % Wide), "i"))

(* elements as programs make them *)
RAttr == {<<"className", "=a b">>, <<"htmlFor", "=f">>, <<"hidden", "on">>, <<"hidden", "off">>, <<"title", "none">>, <<"title", "=é\"'<&">>, <<"tabIndex", "=2">>, <<"data-b", "on">>,
          <<"data-b", "off">>, <<"data-b", "none">>, <<"aria-c", "on">>, <<"aria-c", "=x">>, <<"x-y", "=">>}
RAttrs == Sub(RAttr, 3)
RFieldAttrs == Sub({<<"defaultValue", "=é">>, <<"value", "=w">>, <<"defaultChecked", "on">>, <<"defaultChecked", "off">>, <<"disabled", "on">>, <<"disabled", "off">>, <<"readOnly", "on">>}, 3)
RAreaAttrs == Sub({<<"defaultValue", "=é <b>">>, <<"className", "=c">>}, 2)
ROptAttrs == Sub({<<"value", "=v1">>, <<"className", "=o">>}, 2)
REl(tag, attrs, kids) == [tag |-> tag, attrs |-> attrs, chosen |-> <<>>, style |-> <<>>, on |-> "", click |-> FALSE, key |-> "", kids |-> kids]
RStyled(e, s) == IF At(<<1, 2, 3>>, s, 2) = 1 THEN [e EXCEPT !.style = LET q == SetToSeq(At(Decls, s, 3)) IN [i \in 1..Len(q) |-> <<Styles[q[i][1]], q[i][2]>>]] ELSE e
(* not both the value and the initial value *)
Either(attrs) == IF {"value", "defaultValue"} \subseteq {x[1] : x \in attrs} THEN {x \in attrs : x[1] # "value"} ELSE attrs
RECURSIVE Made(_, _)
Made(s, d) ==
  LET k == At(IF d = 0 THEN <<"text", "none", "void", "field">> ELSE <<"text", "none", "void", "field", "area", "select", "fragment", "raw", "box", "box">>, s, 6)
      kids == [i \in 1..At([i \in 1..(Wide + 1) |-> i - 1], s, 9) |-> Made(Mix(s, 20 + i), d - 1)]
  IN CASE k = "text" -> Text(At(Append(Texts, ""), s, 7))
       [] k = "none" -> [tag |-> "#none", text |-> ""]
       [] k = "void" -> REl(At(<<"br", "hr", "img">>, s, 7), At(RAttrs, s, 8), <<>>)
       [] k = "field" -> REl("input", Either(At(RFieldAttrs, s, 8)), <<>>)
       [] k = "area" -> REl("textarea", At(RAreaAttrs, s, 8), <<>>)
       [] k = "select" -> [REl("select", {}, [i \in 1..At(<<0, 1, 2, 3>>, s, 7) |-> REl("option", At(ROptAttrs, s, 30 + i), At(<< <<>>, <<Text("one")>>, <<Text("é")>> >>, s, 40 + i))])
                            EXCEPT !.chosen = At(<< <<>>, <<"v1">>, <<"one">>, <<"é", "v1">> >>, s, 10)]
       [] k = "fragment" -> REl("", {}, kids)
       [] k = "raw" -> REl(At(<<"script", "style">>, s, 7), {}, <<Text(At(<<"a<b && c('é')", "x > y {}">>, s, 8))>>)
       [] k = "box" -> RStyled(REl(At(<<"div", "section", "span", "my-box">>, s, 7), At(RAttrs, s, 8), kids), s)

Init == \E s \in RandomSubset(Which, 1..46000) :
          \/ LET d == Document(s) IN /\ case = [kind |-> "from", doc |-> d, plain |-> React(d, <<d>>, FALSE, FALSE), links |-> React(d, <<d>>, FALSE, TRUE),
                                                back |-> Markup(React(d, <<d>>, FALSE, FALSE), {})[1]]
                                     /\ PrintT("HIST " \o ToJson(case))
          \/ LET e == REl("div", {}, [j \in 1..(1 + (s % Wide)) |-> Made(Mix(s, j), Deep)])
             IN /\ case = [kind |-> "to", el |-> e, html |-> Markup(e, {})[1]]
                /\ PrintT("HIST " \o ToJson(case))
Next == UNCHANGED case
Sound == case.kind = "from" => case.back = Kept(case.doc, [some |-> {"outside"}])
=============================================================================
