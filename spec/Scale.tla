------------------------------- MODULE Scale -------------------------------
(* How much is held in memory while a dump is indexed.  Objects of the three *)
(* kinds are delivered by the reader, one index entry is pending for each    *)
(* until a batch of entries is written, their payloads are passed over; the  *)
(* small records are kept.  The memory held is bounded by the number of      *)
(* pending entries, which is bounded by the batch, and by what is kept,      *)
(* however many objects there have been and however large they are.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS
  Kinds,
  Batch,   \* entries of a kind that are collected before they are written
  Ahead,   \* objects the reader may have taken from the dump beyond the one indexed
  Room,    \* a full batch takes up to this much memory,
  Cell,    \* and an entry of one that has never been full up to this much,
  Unit,    \* over this
  Window,  \* memory for the reader and whatever does not depend on the dump
  Factor   \* memory for a unit of kept records

VARIABLES
  delivered,  \* objects of each kind read from the dump so far
  written,    \* entries of each kind written to the index so far
  kept,       \* size of the records to be kept, read so far
  mem,        \* memory held
  phase       \* "indexing", "indexed", "refused"
scaleVars == <<delivered, written, kept, mem, phase>>

None == [k \in Kinds |-> 0]
Pending(d, w, k) == d[k] - w[k]
Least(a, b) == IF a < b THEN a ELSE b
(* what the entries of a kind may take: an emptied batch may leave its room *)
Share(d, w, k) == IF w[k] > 0 THEN Room ELSE Least(Room, (Pending(d, w, k) * Cell) \div Unit)
RECURSIVE Shares(_, _, _)
Shares(d, w, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN Share(d, w, k) + Shares(d, w, S \ {k})
Allowed(d, w, c) == Window + Factor * c + Shares(d, w, Kinds)

StartScale(m) == delivered = None /\ written = None /\ kept = 0 /\ mem = m /\ phase = "indexing"
RestartScale(m) == delivered' = None /\ written' = None /\ kept' = 0 /\ mem' = m /\ phase' = "indexing"

(* some more of the dump has been read, some more entries have been written *)
MayAdvance(d, w, c, m) ==
  /\ phase = "indexing"
  /\ \A k \in Kinds : d[k] >= delivered[k] /\ w[k] >= written[k] /\ w[k] <= d[k]
  /\ \A k \in Kinds : Pending(d, w, k) <= Batch + 1 + Ahead
  /\ c >= kept /\ m <= Allowed(d, w, c)
Advance(d, w, c, m) ==
  /\ MayAdvance(d, w, c, m)
  /\ delivered' = d /\ written' = w /\ kept' = c /\ mem' = m /\ UNCHANGED phase
(* all of it has been indexed *)
MayEnd == phase = "indexing" /\ written = delivered
EndScale == MayEnd /\ phase' = "indexed" /\ UNCHANGED <<delivered, written, kept, mem>>

ScaleInv == /\ \A k \in Kinds : written[k] <= delivered[k] /\ Pending(delivered, written, k) <= Batch + 1 + Ahead
            /\ mem <= Allowed(delivered, written, kept)
            \* whatever has been delivered
            /\ mem <= Window + Factor * kept + Cardinality(Kinds) * Room
            /\ phase = "indexed" => written = delivered
=============================================================================
