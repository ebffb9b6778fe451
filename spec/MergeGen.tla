------------------------------ MODULE MergeGen ------------------------------
EXTENDS Merge, Json, TLC
CONSTANTS MaxF, FK
VARIABLES st, hist
Seen(s) == [outcome |-> Outcome(s), finished |-> Finished(s)]
Rec(op, i, s) == [op |-> op, i |-> i, seen |-> Seen(s)]
(* flags of the parts: all the same, or one differs in one of them *)
FlagNames == {"prevent_default", "stop_propagation", "debounce", "throttle", "target"}
Init == \E n \in 1..MaxF, odd \in FlagNames \cup {""}, at \in 1..MaxF, ways \in {"merge", "funcs"} :
          \E fs \in [1..n -> FK] :
          /\ at <= n /\ (odd = "" => at = 1) /\ (odd # "" => ways = "merge")
          /\ st = Start(fs)
          /\ hist = << [op |-> "start", fs |-> fs, odd |-> odd, at |-> at, ways |-> ways,
                        refused |-> (odd # "" /\ n > 1), seen |-> Seen(Start(fs))] >>
Next == \E i \in 1..Len(st.fs) : /\ ~hist[1].refused /\ hist[1].odd = ""
                                 /\ Outcome(st) = "running" /\ st.left[i] > 0
                                 /\ st' = Open(st, i)
                                 /\ hist' = Append(hist, Rec("open", i, st'))
(* every complete history *)
Emit == (hist[1].refused \/ hist[1].odd # "" \/ Outcome(st) # "running") => PrintT("HIST " \o ToJson(hist))
(* done means everybody is through; a failure is never a success *)
Sound == (Outcome(st) = "done" => Finished(st) = 1..Len(st.fs)) /\ (Failed(st) # {} => Outcome(st) = "error")
=============================================================================
