------------------------------ MODULE IndexStore ------------------------------
(* The index of one kind of objects: entries (key, value) are offered in     *)
(* ascending order of keys, collected in batches, written out, and looked up *)
(* by bisection.                                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANT Less(_, _)       \* strict order of keys

VARIABLES
  batch,     \* entries that are collected before they are written
  buffer,    \* entries not yet written
  written,   \* entries written
  last,      \* the last key accepted, in a tuple; empty before the first
  writer     \* "open", "refused", "closed"
storeVars == <<batch, buffer, written, last, writer>>

StartStore(b) == batch = b /\ buffer = <<>> /\ written = <<>> /\ last = <<>> /\ writer = "open"
RestartStore(b) == batch' = b /\ buffer' = <<>> /\ written' = <<>> /\ last' = <<>> /\ writer' = "open"

Backwards(k) == last # <<>> /\ Less(k, last[1])
Room == Len(buffer) <= batch
Put(k, v) ==
  /\ writer = "open" /\ Room
  /\ IF Backwards(k) THEN writer' = "refused" /\ UNCHANGED <<batch, buffer, written, last>>
     ELSE buffer' = Append(buffer, <<k, v>>) /\ last' = <<k>> /\ UNCHANGED <<batch, written, writer>>
(* some of the collected entries are written *)
Flush(n) ==
  /\ writer = "open" /\ n \in 1..Len(buffer)
  /\ written' = written \o SubSeq(buffer, 1, n) /\ buffer' = SubSeq(buffer, n + 1, Len(buffer))
  /\ UNCHANGED <<batch, last, writer>>
Close ==
  /\ writer = "open"
  /\ written' = written \o buffer /\ buffer' = <<>> /\ writer' = "closed"
  /\ UNCHANGED <<batch, last>>

Entries == written \o buffer
Keys == {Entries[i][1] : i \in 1..Len(Entries)}
ValuesOf(k) == {Entries[i][2] : i \in {j \in 1..Len(Entries) : Entries[j][1] = k}}

Ascending(s) == \A i \in 1..(Len(s) - 1) : ~Less(s[i + 1][1], s[i][1])
StoreInv == Ascending(Entries) /\ Len(buffer) <= batch + 1 /\ (writer = "closed" => buffer = <<>>)
=============================================================================
