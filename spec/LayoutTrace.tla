---------------------------- MODULE LayoutTrace ----------------------------
(* Validates recorded executions (a JSON array of traces) against Layout.   *)
(* Every trace is consumed completely; the verdict names each violated      *)
(* guard with the index of the first event that violated it.                *)
EXTENDS Layout, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, S, viol
vars == <<tid, i, S, viol>>

TraceInit == /\ tid \in DOMAIN Traces
             /\ i = 1
             /\ S = Init0(Traces[tid])
             /\ viol = {}

Step == /\ i <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[i]
               bad == Bad(S, e)
               old == {v[1] : v \in viol} IN
           /\ S' = Eff(S, e)
           /\ viol' = viol \cup {<<b, i>> : b \in {x \in bad : x \notin old}}
        /\ i' = i + 1
        /\ UNCHANGED tid

Done == /\ i = Len(Traces[tid].ev) + 1
        /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(i - 1) \o " " \o ToString(viol))
        /\ i' = i + 1
        /\ UNCHANGED <<tid, S, viol>>

TraceNext == Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
