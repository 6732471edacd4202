---------------------------- MODULE MC_IndexStore ----------------------------
(* All short sequences of entries and every lookup in them, step by step;    *)
(* the sequences are printed, to be given to the real code.                  *)
EXTENDS IndexStore, Json

CONSTANTS MaxKey, MaxPuts, Batches

NatLess(a, b) == a < b

VARIABLES
  offered,   \* keys offered, in order; the value of the i-th is i
  accepted,  \* entries that were accepted, in order
  search     \* the lookup in progress: [key, lo, hi, found, val, on]
vars == <<batch, buffer, written, last, writer, offered, accepted, search>>

Idle == [on |-> FALSE, key |-> 0, lo |-> 0, hi |-> 0, done |-> FALSE, found |-> FALSE, val |-> 0]
Init == (\E b \in Batches : StartStore(b)) /\ offered = <<>> /\ accepted = <<>> /\ search = Idle

Offer == /\ Len(offered) < MaxPuts
         /\ \E k \in 0..MaxKey :
              /\ Put(k, Len(offered) + 1)
              /\ offered' = Append(offered, k)
              /\ accepted' = IF Backwards(k) THEN accepted ELSE Append(accepted, <<k, Len(offered) + 1>>)
         /\ UNCHANGED search
Write == (\E n \in 1..MaxPuts : Flush(n)) /\ UNCHANGED <<offered, accepted, search>>
Finish == Close /\ UNCHANGED <<offered, accepted, search>>
Ask == /\ writer = "closed" /\ ~search.on
       /\ \E k \in 0..MaxKey : search' = [Idle EXCEPT !.on = TRUE, !.key = k, !.lo = 0, !.hi = Len(written) - 1]
       /\ UNCHANGED <<storeVars, offered, accepted>>
Probe == /\ search.on /\ ~search.done
         /\ IF search.lo > search.hi THEN search' = [search EXCEPT !.done = TRUE]
            ELSE LET mid == search.lo + (search.hi - search.lo) \div 2
                     e == written[mid + 1]
                 IN search' = IF e[1] = search.key THEN [search EXCEPT !.done = TRUE, !.found = TRUE, !.val = e[2]]
                              ELSE IF Less(e[1], search.key) THEN [search EXCEPT !.lo = mid + 1]
                              ELSE [search EXCEPT !.hi = mid - 1]
         /\ UNCHANGED <<storeVars, offered, accepted>>
Next == Offer \/ Write \/ Finish \/ Ask \/ Probe
Spec == Init /\ [][Next]_vars /\ WF_vars(Probe)

NothingLost == Entries = accepted
RefusedWhenBackwards == writer = "refused" <=> \E i \in 1..(Len(offered) - 1) : offered[i + 1] < offered[i]
(* bisection never leaves the entries it looks for *)
Inside == search.on /\ ~search.done =>
            \A i \in 1..Len(written) : written[i][1] = search.key => i - 1 \in search.lo..search.hi
RightAnswer == search.done => (search.found <=> search.key \in Keys) /\ (search.found => search.val \in ValuesOf(search.key))
Ends == [](search.on => <>search.done)
Shorter == [][search.on /\ search'.on /\ ~search'.done => search'.hi - search'.lo < search.hi - search.lo]_vars
Printed == writer # "open" /\ ~search.on => PrintT(<<"PUTS", ToJson([keys |-> offered, batch |-> batch])>>)
=============================================================================
