----------------------------- MODULE OptionGen ------------------------------
(* Generates histories of option operations together with what must be seen *)
EXTENDS Option, Json, IOUtils

CONSTANTS MaxSubs, Depth, Active
VARIABLES st, hist

Envs == {e \in [Opt -> {"unset", "s1", "s2"}] : \A o \in Opt \ Active : e[o] = "unset"}

Init == \E e \in Envs : /\ st = Start(e)
                        /\ hist = <<[op |-> <<"start", "", "">>, env |-> e, seen |-> Seen(<<st, "none">>)]>>

Fits(op) == op[2] \in Active /\ (op[1] = "subscribe" => st.subs[op[2]] < MaxSubs)

Step(op) == LET r == Do(st, op)
            IN /\ st' = r[1]
               /\ hist' = Append(hist, [op |-> op, seen |-> Seen(r)])

(* transition coverage: every operation in every reachable state *)
Next == \E op \in Ops : /\ Fits(op)
                        /\ Step(op)
                        /\ PrintT("HIST " \o ToJson(hist'))
(* random histories *)
NextSim == \E op \in Ops : Fits(op) /\ Step(op)
Emit == Len(hist) = Depth => PrintT("HIST " \o ToJson(hist))

View == <<st.env, st.cur, st.subs>>

(* invariants of the specification itself *)
TypeOK == /\ \A o \in Opt : st.cur[o] \in {UNSET, 0, 1, 2}
          /\ \A i \in 1..Len(st.note) : st.note[i][3] \in {0, 1, 2}
(* an immutable option never changes and nobody is told anything about it *)
Frozen == /\ Cur(st, "I") = hist[1].seen.cur["I"]
          /\ \A i \in 1..Len(st.note) : st.note[i][1] # "I"
(* whoever is told something is told the value that is current afterwards *)
ToldCurrent == \A i \in 1..Len(st.note) : st.note[i][3] = Cur(st, st.note[i][1])
(* each subscriber is told at most once, and exactly if the value changed (or it has just subscribed) *)
ToldOnce == \A i, j \in 1..Len(st.note) : i # j => st.note[i] # st.note[j]
Last == hist[Len(hist)]
Prev == hist[Len(hist) - 1]
ToldAll == Len(hist) > 1 /\ Last.op[1] # "subscribe" =>
           \A o \in Opt : \A i \in 1..st.subs[o] :
              (\E k \in 1..Len(st.note) : st.note[k][1] = o /\ st.note[k][2] = i)
                 <=> (Last.seen.cur[o] # Prev.seen.cur[o])
(* a rejected operation changes nothing *)
Rejects == Len(hist) > 1 /\ Last.seen.exc # "none" =>
           Last.seen.cur = Prev.seen.cur /\ Last.seen.is_set = Prev.seen.is_set /\ st.note = <<>>
==============================================================================
