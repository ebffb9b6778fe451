-------------------------------- MODULE Page --------------------------------
(* The page of a standalone application: what GET and HEAD requests get, depending on what the browser
   already has. *)
EXTENDS Naturals, Sequences, FiniteSets

(* what the browser sends: its stored entity tags and date *)
Tags == {"none", "current", "other", "weak", "list", "star", "stale"}
Dates == {"none", "same", "older", "newer", "bad"}

(* the browser has the page for sure / may be taken to have it (RFC 9110: If-Modified-Since counts only
   without If-None-Match) *)
Has(r) == r.tag = "current" \/ (r.tag = "none" /\ r.date = "same")
MayHave(r) == r.tag \in {"current", "weak", "list", "star"} \/ (r.tag = "none" /\ r.date \in {"same", "newer"})

Statuses(r) == IF r.method = "HEAD" THEN IF MayHave(r) THEN {200, 304} ELSE {200}
               ELSE IF Has(r) THEN {304} ELSE IF MayHave(r) THEN {200, 304} ELSE {200}
(* of which application, with a body? *)
Expect(r) == [status |-> Statuses(r), body |-> r.method = "GET"]
=============================================================================
