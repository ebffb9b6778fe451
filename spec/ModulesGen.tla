----------------------------- MODULE ModulesGen -----------------------------
EXTENDS Modules, Json, Randomization, SequencesExt, TLC
CONSTANTS Depth, Names, Rich
VARIABLES st, hist
vars == <<st, hist>>
Vs == 1..3
Init == /\ st = [src |-> [f1 |-> 1, f2 |-> 2], pub |-> [n \in Names |-> Nothing]]
        /\ hist = << >>
(* crash: 0, or after which change in the directory the process dies; rival: 0, or what another process
   registers meanwhile *)
Opts == IF Rich THEN [via : {"module", "component"}, resolve : BOOLEAN, want : {"Both", "Own", "Other"}, fb : 0..2, unmount : BOOLEAN, crash : {0, 0, 1, 2, 3, 4}, rival : {0}]
        ELSE {[via |-> v, resolve |-> FALSE, want |-> "Own", fb |-> 0, unmount |-> FALSE, crash |-> c, rival |-> 0] : v \in {"module", "component"}, c \in {0, 2}}
Merged(a, b) == [x \in DOMAIN a \cup DOMAIN b |-> IF x \in DOMAIN a THEN a[x] ELSE b[x]]
Strings == {[op |-> "string", name |-> n, v |-> v] : n \in Names, v \in Vs}
Files == {[op |-> "file", name |-> n, f |-> f, link |-> l] : n \in Names, f \in {"f1", "f2"}, l \in BOOLEAN}
Others == {[op |-> "edit", f |-> f, v |-> v] : f \in {"f1", "f2"}, v \in 0..3} \cup {[op |-> "wipe", name |-> n] : n \in Names}
Step(op) == LET h2 == Append(hist, [op |-> op, seen |-> Seen(st, op)])
            IN st' = Do(st, op) /\ hist' = h2
Next == Len(hist) < Depth
        /\ \E op \in {Merged(a, b) : a \in Strings \cup Files, b \in Opts} \cup Others : Step(op) /\ PrintT("HIST " \o ToJson(hist'))
(* a random walk; rivals only here *)
NextSim == Len(hist) < Depth
           /\ \E k \in {RandomElement(1..10)} : \E o \in {RandomElement(Opts)}, a \in {RandomElement(Strings)}, f \in {RandomElement(Files)}, x \in {RandomElement(Others)}, r \in {RandomElement(0..6)} :
                Step(CASE k <= 4 -> Merged(a, [o EXCEPT !.rival = IF o.crash = 0 /\ ~o.resolve /\ r <= 3 THEN r ELSE 0]) [] k <= 8 -> Merged(f, o) [] OTHER -> x)
           /\ (Len(hist') = Depth => PrintT("HIST " \o ToJson(hist')))
View == st
Sound == \A n \in Names : /\ Served(st, n) # 0 => st.pub[n] # Nothing
                          /\ st.pub[n][1] = "copy" => Served(st, n) = st.pub[n][2]
=============================================================================
