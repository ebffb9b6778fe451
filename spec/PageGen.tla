------------------------------- MODULE PageGen ------------------------------
EXTENDS Page, Json, TLC, Randomization, SequencesExt
CONSTANTS Depth, Apps
VARIABLES apps, hist
Modes == {"standalone", "csr"}
Heads == {"none", "title", "accents", "tricky"}
Bodies == {"default", "none", "accents", "component", "fragment"}
Headers == {"none", "extra", "override", "Override", "type"}
Langs == {"en", "pt-BR"}
Prefs == {"/reactpy/", "/", "/a/b.c/"}
Descr == [mode : Modes, head : Heads, body : Bodies, headers : Headers, lang : Langs, pre : Prefs, setup : BOOLEAN]
Init == apps = <<>> /\ hist = <<>>
Make == \E d \in {RandomElement(Descr)} : apps' = Append(apps, d) /\ hist' = Append(hist, [op |-> "make", app |-> Len(apps) + 1, descr |-> d])
Req(m, t, d, n) == [op |-> "request", app |-> RandomElement(1..Len(apps)), method |-> m, tag |-> t, date |-> d, times |-> n]
Ask(r) == hist' = Append(hist, r @@ [expect |-> Expect(r)]) /\ UNCHANGED apps
Next == /\ Len(hist) < Depth
        /\ \/ Len(apps) < Apps /\ Make
           \/ /\ Len(apps) > 0
              /\ \E m \in {RandomElement({"GET", "GET", "HEAD"})}, t \in {RandomElement(Tags)}, d \in {RandomElement(Dates)}, n \in {RandomElement({1, 1, 3})} :
                   Ask(Req(m, t, d, n))
        /\ (Len(hist') = Depth => PrintT("HIST " \o ToJson(hist')))
(* all requests to some applications *)
CONSTANT Some
Requests == SetToSeq([op : {"request"}, app : {1}, method : {"GET", "HEAD"}, tag : Tags, date : Dates, times : {1}])
InitAll == /\ apps = <<>>
           /\ \E d \in RandomSubset(Some, Descr) :
                hist = <<[op |-> "make", app |-> 1, descr |-> d]>> \o [i \in 1..Len(Requests) |-> Requests[i] @@ [expect |-> Expect(Requests[i])]]
           /\ PrintT("HIST " \o ToJson(hist))
NextAll == UNCHANGED <<apps, hist>>
(* a browser that has the page never gets it again, one that cannot have it always does *)
Sound == \A t \in Tags, d \in Dates, m \in {"GET", "HEAD"} :
           LET r == [method |-> m, tag |-> t, date |-> d]
           IN /\ Statuses(r) # {} /\ (Has(r) => MayHave(r))
              /\ (t \in {"other", "stale"} => Statuses(r) = {200})
=============================================================================
