-------------------------------- MODULE MC_Runs --------------------------------
(* All short histories of the environment of runs on one dump, as stimuli for  *)
(* the real program: what happens to runs and to the dump, in which order.     *)
EXTENDS Runs, Sequences, TLC, Json

CONSTANTS MaxRuns, MaxChanges, MaxHarms, MaxSteps, Versions, Bad, Together

VARIABLES hist
vars == <<runVars, hist>>

Good(d, c) == d \notin Bad
Started == {r \in 1..MaxRuns : status[r] # "idle"}
Count(what) == Cardinality({n \in 1..Len(hist) : hist[n][1] \in what})
Event(what, x) == hist' = Append(hist, <<what, x>>)

Init == (\E d \in Versions : StartRuns(1..MaxRuns, d) /\ hist = << <<"dump", d>> >>)
Change == Count({"dump"}) <= MaxChanges /\ (\E d \in Versions \ {dump} : Replace(d) /\ Event("dump", d))
(* runs are numbered as they begin *)
Start == Cardinality(Running) < Together /\ \E r \in 1..MaxRuns : Started = 1..(r - 1) /\ Begin(r, <<>>) /\ Event("begin", r)
Move == Count({"step"}) < MaxSteps /\ Cardinality(Running) > 1
        /\ \E r \in Running : hist[Len(hist)] # <<"step", r>> /\ Event("step", r) /\ UNCHANGED runVars
Dies == Count({"kill", "fault"}) < MaxHarms /\ \E r \in Running : Kill(r, {}) /\ Event("kill", r)
(* a run that meets a fault ends *)
Fails_ == Count({"kill", "fault"}) < MaxHarms /\ \E r \in Running : Fault(r, "write") /\ Event("fault", r)
Ends == \E r \in Running :
          /\ IF r \in astray THEN End(r, Good, "ok", <<"anything">>, {})
             ELSE \E how \in {"ok", "failed"} : \E o \in {<<"report", dump>>, <<"reason">>} : End(r, Good, how, o, {})
          /\ IF harm[r] # {} THEN UNCHANGED hist ELSE Event("end", r)
Next == IF \E r \in Running : harm[r] # {} THEN Ends ELSE Change \/ Start \/ Move \/ Dies \/ Fails_ \/ Ends
Spec == Init /\ [][Next]_vars

(* a history that ends with an undisturbed run says something *)
Whole == Running = {} /\ Started = 1..MaxRuns /\ hist[Len(hist)][1] = "end"
Printed == Whole => PrintT(<<"HIST", ToJson(hist)>>)
(* whatever happened, an undisturbed run on a good dump that ends has its report *)
Undisturbed == \A r \in 1..MaxRuns : status[r] = "ended" /\ harm[r] = {} /\ r \notin astray =>
                 output[r][1] = IF exit[r] = "ok" THEN "report" ELSE "reason"
=============================================================================
