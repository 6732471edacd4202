----------------------------- MODULE TraceProgress -----------------------------
(* What real runs wrote to standard error and to standard output, in order,     *)
(* against Progress.  One line holds runs, one observation each: live (progress  *)
(* is wanted), least, most, item (as in Write), events, exit, and whether the report is the right one.            *)
EXTENDS Progress, TLC, Json

Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, k, i
vars == <<progVars, l, k, i>>

Obs == Trace[l].obs
O == Obs[k]
Reject(why) == PrintT(<<"VERDICT", ToJson([l |-> l, k |-> k, v |-> <<"reject", why>>])>>)
Here == l <= Len(Trace) /\ k <= Len(Obs) /\ O.kind = "stderr"
NextObs == l' = l /\ k' = k + 1 /\ i' = 1 /\ RestartProgress
Event == /\ Here /\ i <= Len(O.events)
         /\ LET e == O.events[i] IN CASE e.to = "err" -> Write(e.bytes, O.least, O.most, O.item) [] e.to = "got" -> Got(e.n) [] OTHER -> StartPrinting
         /\ i' = i + 1 /\ UNCHANGED <<l, k>>
Why == CASE ~O.live /\ O.events # <<>> /\ (\E n \in 1..Len(O.events) : O.events[n].to = "err") -> "standard error is written without progress"
         [] ~Bounded -> "percentage"
         [] ~NeverBack -> "percentage goes back"
         [] ~NotAhead -> "ahead of what has been read"
         [] ~NotBehind -> "far behind what has been read"
         [] ~FixedWidth -> "width of the bar"
         [] ~OnlyProgress -> "something that is not progress, or not in its place, or a wrong bar"
         [] ~Blank -> "progress stays on the screen"
         [] O.hang \/ O.crashed -> "crash or hang"
         [] ~O.right -> "another result than without progress"
         [] OTHER -> ""
Judged == /\ Here /\ i > Len(O.events)
          /\ IF Why = "" THEN TRUE ELSE Reject(Why)
          /\ NextObs
(* the line is already wrong when printing begins *)
Other == l <= Len(Trace) /\ k <= Len(Obs) /\ O.kind # "stderr" /\ Reject(O.kind) /\ NextObs
NextScenario == l <= Len(Trace) /\ k > Len(Obs) /\ l' = l + 1 /\ k' = 1 /\ i' = 1 /\ RestartProgress

Init == l = 1 /\ k = 1 /\ i = 1 /\ StartProgress
Next == Event \/ Judged \/ Other \/ NextScenario
Spec == Init /\ [][Next]_vars
View == <<l, k, i>>
Done == l = Len(Trace) + 1 => PrintT(<<"DONE", l - 1>>)
=============================================================================
