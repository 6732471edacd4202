----------------------------- MODULE TraceStore -----------------------------
(* What the real store did, against IndexStore: every entry offered is one   *)
(* Put, whatever was written after it one Flush.                             *)
EXTENDS IndexStore, Text, Json

Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, k, i   \* scenario, observation, entry
vars == <<storeVars, l, k, i>>

Obs == Trace[l].obs
O == Obs[k]
Reject(why) == PrintT(<<"VERDICT", ToJson([l |-> l, k |-> k, v |-> <<"reject", why>>])>>)
IsStore == l <= Len(Trace) /\ k <= Len(Obs) /\ O.kind = "store"
NextObs == k' = k + 1 /\ i' = 1 /\ l' = l
           /\ IF k < Len(Obs) /\ Obs[k + 1].kind = "store" THEN RestartStore(Obs[k + 1].batch) ELSE RestartStore(1)

(* an entry is offered: accepted exactly if the specification accepts it, *)
(* and then perhaps some entries are written                              *)
Offer ==
  /\ IsStore /\ i <= Len(O.puts) /\ writer = "open"
  /\ LET p == O.puts[i] IN
     IF p.ok = Backwards(p.key) THEN Reject("put") /\ NextObs
     ELSE IF ~p.ok THEN Put(p.key, p.val) /\ i' = i + 1 /\ UNCHANGED <<l, k>>
     ELSE LET all == Append(Entries, <<p.key, p.val>>) IN
          IF p.written \notin Len(written)..Len(all) \/ Len(all) - p.written > batch + 1 THEN Reject("written entries") /\ NextObs
          ELSE /\ written' = SubSeq(all, 1, p.written) /\ buffer' = SubSeq(all, p.written + 1, Len(all))
               /\ last' = <<p.key>> /\ i' = i + 1 /\ UNCHANGED <<batch, writer, l, k>>
(* after a refusal nothing more is offered; what is there can still be closed *)
Shut ==
  /\ IsStore /\ i = Len(O.puts) + 1 /\ writer \in {"open", "refused"}
  /\ writer' = "closed" /\ written' = Entries /\ buffer' = <<>> /\ i' = i + 1
  /\ UNCHANGED <<batch, last, l, k>>

GetOk(g) == (g.found <=> g.key \in Keys) /\ (g.found => g.val \in ValuesOf(g.key))
Ragged == {n \in 0..O.probed : (n % 16) = 0}
Lookups ==
  /\ IsStore /\ writer = "closed"
  /\ IF ~O.closed \/ ~O.open THEN Reject("close")
     ELSE IF O.entries # written \/ O.bytes # 16 * Len(written) THEN Reject("entries")
     ELSE IF \E j \in 1..Len(O.gets) : ~GetOk(O.gets[j]) THEN Reject("get")
     ELSE IF {O.sizes[j] : j \in 1..Len(O.sizes)} # Ragged THEN Reject("ragged")
     ELSE TRUE
  /\ NextObs
Other == l <= Len(Trace) /\ k <= Len(Obs) /\ O.kind # "store" /\ Reject("crash") /\ NextObs
NextScenario == /\ l <= Len(Trace) /\ k > Len(Obs) /\ l' = l + 1 /\ k' = 1 /\ i' = 1
                /\ RestartStore(IF l < Len(Trace) /\ Trace[l + 1].obs # <<>> /\ Trace[l + 1].obs[1].kind = "store" THEN Trace[l + 1].obs[1].batch ELSE 1)

Init == l = 1 /\ k = 1 /\ i = 1 /\ StartStore(IF Trace[1].obs[1].kind = "store" THEN Trace[1].obs[1].batch ELSE 1)
Next == Offer \/ Shut \/ Lookups \/ Other \/ NextScenario
Spec == Init /\ [][Next]_vars
View == <<l, k, i, writer>>
Done == l = Len(Trace) + 1 => PrintT(<<"DONE", l - 1>>)
=============================================================================
