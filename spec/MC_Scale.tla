------------------------------ MODULE MC_Scale ------------------------------
(* The way the program keeps its memory bounded, step by step, for all short *)
(* dumps made of runs of objects: entries are collected and written when     *)
(* there is more than a batch of them; payloads are read piece by piece and  *)
(* forgotten.  It refines Scale.  The dumps are printed, to be given to the  *)
(* real code, with a batch of Batch entries standing for a real one.         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxRuns, Counts, Batch,
          Flushes,  \* FALSE: a program that writes at the end only
          Forgets   \* FALSE: a program that holds payloads while it reads them

Kinds == {0, 1, 2}
Sizes == {0, 3}  \* of payloads, in pieces

VARIABLES
  plan,      \* runs so far: [kind, count, size]; kind 3: records to be kept
  left,      \* objects left of the last run
  payload,   \* pieces left of the payload of the current object, in a tuple
  held,      \* pieces held
  got,       \* objects read
  buffer,    \* entries collected, per kind
  out,       \* entries written, per kind
  names,     \* records kept
  done
vars == <<plan, left, payload, held, got, buffer, out, names, done>>

Init == plan = <<>> /\ left = 0 /\ payload = <<>> /\ held = 0 /\ names = 0 /\ done = FALSE
        /\ got = [k \in Kinds |-> 0] /\ buffer = [k \in Kinds |-> 0] /\ out = [k \in Kinds |-> 0]

Run == plan[Len(plan)]
NewRun == /\ ~done /\ left = 0 /\ payload = <<>> /\ Len(plan) < MaxRuns
          /\ \E k \in Kinds \cup {3}, c \in Counts, s \in Sizes :
               /\ (k = 3 => s = 0) /\ (s # 0 => c <= Batch)
               /\ plan' = Append(plan, [kind |-> k, count |-> c, size |-> s]) /\ left' = c
          /\ UNCHANGED <<payload, held, got, buffer, out, names, done>>
(* the head of an object: its entry is collected, a batch may be written *)
Head1 == /\ ~done /\ left > 0 /\ payload = <<>> /\ Run.kind # 3
         /\ LET k == Run.kind
                full == Flushes /\ buffer[k] = Batch IN
            /\ buffer' = [buffer EXCEPT ![k] = IF full THEN 0 ELSE @ + 1]
            /\ out' = [out EXCEPT ![k] = IF full THEN @ + buffer[k] + 1 ELSE @]
            /\ got' = [got EXCEPT ![k] = @ + 1]
         /\ left' = left - 1 /\ payload' = IF Run.size = 0 THEN <<>> ELSE <<Run.size>>
         /\ UNCHANGED <<plan, held, names, done>>
ReadPiece == /\ payload # <<>>
             /\ payload' = IF payload[1] = 1 THEN <<>> ELSE <<payload[1] - 1>>
             /\ held' = IF Forgets \/ payload[1] = 1 THEN 0 ELSE held + 1
             /\ UNCHANGED <<plan, left, got, buffer, out, names, done>>
Keep == /\ ~done /\ left > 0 /\ Run.kind = 3 /\ names' = names + 1 /\ left' = left - 1
        /\ UNCHANGED <<plan, payload, held, got, buffer, out, done>>
Close == /\ ~done /\ left = 0 /\ payload = <<>>
         /\ out' = [k \in Kinds |-> out[k] + buffer[k]] /\ buffer' = [k \in Kinds |-> 0]
         /\ done' = TRUE /\ UNCHANGED <<plan, left, payload, held, got, names>>
Next == NewRun \/ Head1 \/ ReadPiece \/ Keep \/ Close
Spec == Init /\ [][Next]_vars

(* memory, in pieces: the piece being read, pieces held, entries, records *)
Memory == 1 + held + buffer[0] + buffer[1] + buffer[2] + names
A == INSTANCE Scale WITH delivered <- got, written <- out, kept <- names, mem <- Memory,
       phase <- IF done THEN "indexed" ELSE "indexing",
       Ahead <- 0, Room <- Batch + 1, Cell <- 1, Unit <- 1, Window <- 1, Factor <- 1

Bounded == A!ScaleInv
Refines == [][\/ A!MayAdvance(got', out', names', Memory') /\ ~done'
              \/ A!MayAdvance(got', out', names', Memory') /\ done' /\ out' = got']_vars
(* bounded by the kinds and the batch alone, save for what is kept *)
Flat == Memory - names <= 1 + Cardinality(Kinds) * (Batch + 1)
Printed == done => PrintT(<<"PLAN", ToJson(plan)>>)
=============================================================================
