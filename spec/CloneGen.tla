----------------------------- MODULE CloneGen -------------------------------
EXTENDS Clone, Json, TLC, Randomization
CONSTANTS Depth
VARIABLES g, sel, max, n
Vars == <<g, sel, max, n>>
Some(k, S) == IF Cardinality(S) <= k THEN S ELSE RandomSubset(k, S)

Names == {"a", "b", "Ab", "selection", "elements"} \cup Range(Extra) \cup Reserved \cup OfNodes
Where == {"own", "proto", "hidden", "bad", "badhidden"}
Leaves == { Leaf(t) : t \in Useless \cup {"num", "zero", "empty", "yes", "no"} } \cup { Text("u"), Text("size"), Text("AB") }
FieldName(cls) == IF cls = "form" THEN Names \ {"elements"} ELSE Names
CanHave(o, name) == ~ Has([i \in DOMAIN o.fields |-> [n |-> o.fields[i].name]], name)
(* the text of a name is one, and so are those of datasets *)
Fit(name, cls, v) == /\ (name = "name" => v.t = "str")
                     /\ (cls = "dataset" => v.t \in {"str", "empty"})
                     /\ (cls \in Nodes \/ name # "dataset" \/ v.t # "ref" \/ TRUE)
Put(i, f) == g' = [g EXCEPT ![i].fields = Append(@, f)]
Grown(i, cls, name, where) ==
  LET h == Append(g, IF cls \in {"select", "list"} THEN [Obj(cls) EXCEPT !.items = <<Text("u")>>] ELSE Obj(cls)) IN
  IF g[i].cls \in Lists THEN [h EXCEPT ![i].items = Append(@, Ref(Len(h)))]
  ELSE [h EXCEPT ![i].fields = Append(@, Field(name, where, Ref(Len(h))))]
RECURSIVE Row(_, _, _)
Row(h, i, k) == IF k = 0 THEN h
                ELSE LET j == Append(h, Obj(IF k % 3 = 0 THEN "array" ELSE "obj")) IN
                     Row(IF h[i].cls \in Lists THEN [j EXCEPT ![i].items = Append(@, Ref(Len(j)))] ELSE [j EXCEPT ![i].fields = Append(@, Field("a", "own", Ref(Len(j))))], Len(j), k - 1)

Start(c, s, m) == g = <<Obj(c)>> /\ sel = s /\ max = m /\ n = 0
Init == \E c \in {"event", "obj", "array"} : Start(c, Leaf(IF c = "event" THEN "none" ELSE "null"), 10)
InitSim == \E c \in {"event", "obj", "array"}, s \in {Leaf("null"), Leaf("none"), Ref(2)}, m \in {1, 2, 3, 4, 10} : Start(c, s, m)
Show == "HIST " \o ToJson([g |-> g', sel |-> sel', max |-> max', want |-> Sent(g', IF sel'.t = "ref" /\ (Len(g') < 2 \/ g'[2].cls \in Lists) THEN Leaf("none") ELSE sel', max')])

AddField(i, name, where, v) == /\ g[i].cls \notin Lists /\ CanHave(g[i], name) /\ name \in FieldName(g[i].cls) /\ (name = "length" => where \notin {"bad", "badhidden"}) /\ Fit(name, g[i].cls, v)
                               /\ Put(i, Field(name, where, v))
AddItem(i, v) == /\ g[i].cls \in Lists /\ g' = [g EXCEPT ![i].items = Append(@, v)]
AddObject(i, cls, name, where) == /\ (g[i].cls \in Lists \/ (CanHave(g[i], name) /\ name \notin {"name", "length"} /\ name \in FieldName(g[i].cls) /\ g[i].cls # "dataset"))
                                  /\ g' = Grown(i, cls, name, where)
AddElement(i, name) == /\ g[i].cls = "form"
                       /\ LET h == Append(g, [Obj("input") EXCEPT !.fields = <<Field("name", "proto", Text(name)), Field("value", "hidden", Text("u"))>>]) IN
                          g' = [h EXCEPT ![i].elements = Append(@, Len(h))]
AddRow(i, k) == /\ (g[i].cls \in Lists \/ (CanHave(g[i], "a") /\ g[i].cls # "dataset")) /\ g' = Row(g, i, k)
Refs == { Ref(i) : i \in DOMAIN g }

Next == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED <<sel, max>>
        /\ IF n = 0
           THEN \/ \E cls \in Classes \ {"event"}, name \in {"a", "files"} : AddObject(1, cls, name, "proto")
                \/ \E k \in {1, 7, 8, 9, 10, 11} : AddRow(1, k)
                \/ \E name \in Names, where \in Where, v \in Leaves : AddField(1, name, where, v)
           ELSE /\ Len(g) > 1
                /\ \E i \in {Len(g)} :
                     \/ \E name \in Names, v \in Leaves \cup Refs : AddField(i, name, "own", v)
                     \/ \E name \in Range(Extra), where \in Where \ {"own"}, v \in Leaves \cup Refs : AddField(i, name, where, v)
                     \/ \E v \in Leaves \cup Refs : AddItem(i, v)
                     \/ \E cls \in Classes \ {"event"}, name \in Range(Extra) \cup {"a"}, where \in Where : AddObject(i, cls, name, where)
                     \/ \E name \in Names \cup {"u", "__proto"} : AddElement(i, name)
                     \/ \E k \in {8, 9} : AddRow(i, k)
        /\ PrintT(Show)
NextSim == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED <<sel, max>>
           /\ \E i \in Some(1, DOMAIN g) :
                \/ \E name \in Some(2, Names), where \in Some(1, Where), v \in Some(1, Leaves) \cup Some(2, Refs) : AddField(i, name, where, v)
                \/ \E name \in Some(1, Range(Extra)), where \in Some(1, Where), v \in Some(1, Leaves) \cup Some(2, Refs) : AddField(i, name, where, v)
                \/ \E v \in Some(1, Leaves) \cup Some(2, Refs) : AddItem(i, v)
                \/ \E cls \in Some(2, Classes), name \in Some(2, Names), where \in Some(1, Where) : AddObject(i, cls, name, where)
                \/ \E cls \in Some(2, Classes), name \in Some(1, {"a", "b", "files", "dataset"}) : AddObject(i, cls, name, "own")
                \/ \E name \in Some(1, Names \cup {"u"}) : AddElement(i, name)
                \/ \E k \in Some(1, 1..11) : Len(g) < 20 /\ AddRow(i, k)
           /\ (n' = Depth => PrintT(Show))
NoFiles == \A i \in DOMAIN g : CanHave(g[i], "files")
NotTooDeep == NoFiles => Deep(Sent(g, Leaf("none"), max)) <= max + 2
=============================================================================
