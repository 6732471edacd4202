------------------------------- MODULE TraceRuns -------------------------------
(* Histories of real runs, against Runs.  One line holds what is known of the  *)
(* versions of the dump (refs: the report of each command on each version, as  *)
(* a digest; "" where there is none), the files of a complete index, and what  *)
(* happened, event by event.                                                  *)
EXTENDS Runs, Sequences, TLC, Json

Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, k,
  mixed  \* since some run began alone, a run was killed or met a fault while others were running
vars == <<runVars, l, k, mixed>>

AllRuns == 1..40
Obs == Trace[l].obs
O == Obs[k]
Set(s) == {s[j] : j \in 1..Len(s)}
Ref(t, d, c) == LET hits == {j \in 1..Len(t.refs) : t.refs[j].v = d /\ t.refs[j].cmd = c} IN
                IF hits = {} THEN "" ELSE t.refs[CHOOSE j \in hits : TRUE].out
Good(d, c) == Ref(Trace[l], d, c) # ""
Beside(names) == Set(names) \ (Set(Trace[l].complete) \cup stray)
Out(c) == IF O.out = Ref(Trace[l], dump, c) THEN <<"report", dump>>
          ELSE IF O.report THEN <<"part">> ELSE IF O.reason THEN <<"reason">> ELSE <<"nothing">>
How == IF O.crashed \/ O.hang THEN "crash" ELSE IF O.exit = 0 THEN "ok" ELSE "failed"

Reject(why) == PrintT(<<"VERDICT", ToJson([l |-> l, k |-> k, v |-> <<"reject", why>>])>>)
Advance == k' = k + 1 /\ l' = l
(* after something that must not happen, the rest of the history is skipped *)
Skip == k' = Len(Obs) + 1 /\ l' = l /\ UNCHANGED <<runVars, mixed>>
Is(kind) == l <= Len(Trace) /\ k <= Len(Obs) /\ O.kind = kind

DumpEvent == Is("dump") /\ Replace(O.v) /\ Advance /\ UNCHANGED mixed
BeginEvent == Is("begin") /\ Begin(O.r, O.cmd) /\ Advance
              /\ mixed' = (Running # {} /\ (mixed \/ \E r \in Running : harm[r] # {}))
FaultEvent == Is("fault") /\ Fault(O.r, O.op) /\ Advance /\ mixed' = (mixed \/ Running # {O.r})
KillEvent == Is("killed") /\
  IF ~O.untouched THEN Reject("a killed run changed other files") /\ Skip
  ELSE Kill(O.r, Beside(O.names)) /\ Advance /\ mixed' = (mixed \/ Running # {O.r})
(* what others that are still running have is not told apart from what it left *)
Leaving == IF Running = {O.r} \/ harm[O.r] \cap Cleaning # {} THEN Beside(O.names) ELSE {}
Ended == End(O.r, Good, How, Out(command[O.r]), Leaving)
EndEvent == Is("ended") /\
  IF ~O.untouched THEN Reject("a run changed other files") /\ Skip
  ELSE IF O.r \in astray /\ ~O.hang /\ Leaves(O.r, Leaving) THEN Ended /\ Advance /\ UNCHANGED mixed
  ELSE IF How = "crash" THEN Reject("a run crashed or did not end") /\ Skip
  ELSE IF How = "ok" /\ ~(\E d \in {dump} : Succeeds(O.r, Good, Out(command[O.r]))) THEN Reject("exit status 0 without the report of the dump") /\ Skip
  ELSE IF How = "failed" /\ ~Fails(O.r, Good, Out(command[O.r])) THEN Reject("a run failed, or did not say why") /\ Skip
  ELSE IF ~Leaves(O.r, Leaving) THEN Reject("a run left files") /\ Skip
  ELSE IF How = "ok" /\ Running = {O.r} /\ ~mixed /\ harm[O.r] = {} /\ ~(Set(Trace[l].complete) \subseteq Set(O.names)) THEN Reject("no complete index") /\ Skip
  ELSE Ended /\ Advance /\ UNCHANGED mixed
(* runs of which only the behaviour itself is looked at *)
Other == l <= Len(Trace) /\ k <= Len(Obs) /\ O.kind \notin {"dump", "begin", "fault", "killed", "ended"} /\ Reject(O.kind) /\ Skip
First(t) == IF t.obs # <<>> /\ t.obs[1].kind = "dump" THEN t.obs[1].v ELSE ""
NextScenario ==
  /\ l <= Len(Trace) /\ k > Len(Obs) /\ l' = l + 1 /\ k' = 1
  /\ dump' = (IF l < Len(Trace) THEN First(Trace[l + 1]) ELSE "")
  /\ status' = [r \in AllRuns |-> "idle"] /\ command' = [r \in AllRuns |-> <<>>] /\ harm' = [r \in AllRuns |-> {}]
  /\ exit' = [r \in AllRuns |-> ""] /\ output' = [r \in AllRuns |-> <<>>] /\ stray' = {} /\ astray' = {} /\ mixed' = FALSE

Init == l = 1 /\ k = 1 /\ mixed = FALSE /\ StartRuns(AllRuns, First(Trace[1]))
Next == DumpEvent \/ BeginEvent \/ FaultEvent \/ KillEvent \/ EndEvent \/ Other \/ NextScenario
Spec == Init /\ [][Next]_vars
View == <<l, k>>
Done == l = Len(Trace) + 1 => PrintT(<<"DONE", l - 1>>)
=============================================================================
