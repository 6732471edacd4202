----------------------------- MODULE TraceScale -----------------------------
(* What was noted while the real parser read a dump made while it is read,   *)
(* against Scale.  Memory and sizes are in KiB.                              *)
EXTENDS Scale, TLC, Json

Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, k, i   \* scenario, observation, note
vars == <<scaleVars, l, k, i>>

Obs == Trace[l].obs
O == Obs[k]
Reject(why, what) == PrintT(<<"VERDICT", ToJson([l |-> l, k |-> k, v |-> <<"reject", why, what>>])>>)
NextObs == k' = k + 1 /\ i' = 1 /\ l' = l /\ RestartScale(0)
In == l <= Len(Trace) /\ k <= Len(Obs)

Of(s) == [x \in Kinds |-> s[x + 1]]
Note ==
  /\ In /\ O.kind = "scale" /\ i <= Len(O.notes)
  /\ LET n == O.notes[i] IN
     IF MayAdvance(Of(n.delivered), Of(n.written), n.kept, n.heap)
     THEN Advance(Of(n.delivered), Of(n.written), n.kept, n.heap) /\ i' = i + 1 /\ UNCHANGED <<l, k>>
     ELSE Reject("memory or pending entries", <<n, Allowed(Of(n.delivered), Of(n.written), n.kept)>>) /\ NextObs
End ==
  /\ In /\ O.kind = "scale" /\ i > Len(O.notes)
  /\ IF ~O.ok THEN Reject("refused", <<>>)
     ELSE IF ~MayEnd \/ ~O.closed \/ O.ragged \/ [x \in Kinds |-> O.objects[x + 1]] # delivered THEN Reject("index not complete", <<delivered, written>>)
     ELSE TRUE
  /\ NextObs
(* a whole run of the program on a file: the most memory it ever had; twice  *)
(* what is held, as garbage is collected, and the program itself             *)
Whole ==
  /\ In /\ O.kind = "peak"
  /\ LET all == 2 * (Window + Factor * O.kept + Cardinality(Kinds) * Room) + O.program IN
     IF O.exit # 0 \/ O.written # O.objects THEN Reject("run", <<>>)
     ELSE IF O.rss > all THEN Reject("memory of a run", <<all>>)
     ELSE TRUE
  /\ NextObs
Other == In /\ O.kind \notin {"scale", "peak"} /\ Reject("crash", <<>>) /\ NextObs
NextScenario == l <= Len(Trace) /\ k > Len(Obs) /\ l' = l + 1 /\ k' = 1 /\ i' = 1 /\ RestartScale(0)

Init == l = 1 /\ k = 1 /\ i = 1 /\ StartScale(0)
Next == Note \/ End \/ Whole \/ Other \/ NextScenario
Spec == Init /\ [][Next]_vars
View == <<l, k, i>>
Done == l = Len(Trace) + 1 => PrintT(<<"DONE", l - 1>>)
=============================================================================
