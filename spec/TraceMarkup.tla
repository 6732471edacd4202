----------------------------- MODULE TraceMarkup -----------------------------
(* The HTML reports of the real program, token by token, against Markup.      *)
EXTENDS Markup, Json, TLC

Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, k, n, state
vars == <<l, k, n, state>>

Obs == Trace[l].obs
Read == /\ l <= Len(Trace) /\ k <= Len(Obs) /\ n <= Len(Obs[k].tokens)
        /\ state' = Feed(state, Obs[k].tokens[n]) /\ n' = n + 1 /\ UNCHANGED <<l, k>>
Why == IF Obs[k].exit # 0 THEN "no report" ELSE IF Complete(state) THEN "" ELSE IF state.why = "" THEN "incomplete document" ELSE state.why
End == /\ l <= Len(Trace) /\ k <= Len(Obs) /\ n > Len(Obs[k].tokens)
       /\ IF Why = "" THEN TRUE ELSE PrintT(<<"VERDICT", ToJson([l |-> l, k |-> k, v |-> <<"reject", Why>>])>>)
       /\ k' = k + 1 /\ n' = 1 /\ state' = Fresh /\ UNCHANGED l
NextScenario == l <= Len(Trace) /\ k > Len(Obs) /\ l' = l + 1 /\ k' = 1 /\ UNCHANGED <<n, state>>
Init == l = 1 /\ k = 1 /\ n = 1 /\ state = Fresh
Next == Read \/ End \/ NextScenario
Spec == Init /\ [][Next]_vars
Done == l = Len(Trace) + 1 => PrintT(<<"DONE", l - 1>>)
View == <<l, k, n>>
=============================================================================
