--------------------------------- MODULE Runs ---------------------------------
(* What a user sees of runs of the tool on one dump file: runs begin, may be  *)
(* disturbed (killed, an operation of the system fails), end with a status    *)
(* and an output; the dump may be replaced between runs, and under a run that *)
(* is alone, which then is astray: it may say anything.  Whatever happened    *)
(* before and whatever runs at the same time, a run that is not disturbed     *)
(* reports on the current dump as a lone first run would.                     *)
(*                                                                           *)
(* The protocol that makes this true is Publish.tla, which is checked by TLC  *)
(* to refine this module; traces of the real program are validated against it *)
(* by TraceRuns.tla.                                                          *)
EXTENDS Naturals, FiniteSets

VARIABLES
  dump,      \* version of the dump file in place
  status,    \* run -> "idle", "running", "ended", "killed"
  command,   \* run -> sub-command and options
  harm,      \* run -> faults it met: set of names of operations
  exit,      \* run -> "", "ok", "failed"
  output,    \* run -> what it printed: <<>> before the end, <<"report", version>>, <<"reason">>, ...
  stray,     \* files beside the complete index that disturbed runs have left
  astray     \* runs under which the dump was replaced
runVars == <<dump, status, command, harm, exit, output, stray, astray>>

Running == {r \in DOMAIN status : status[r] = "running"}

StartRuns(Runs, d) ==
  /\ dump = d /\ status = [r \in Runs |-> "idle"] /\ command = [r \in Runs |-> <<>>]
  /\ harm = [r \in Runs |-> {}] /\ exit = [r \in Runs |-> ""] /\ output = [r \in Runs |-> <<>>] /\ stray = {} /\ astray = {}

(* the dump is replaced, completed or truncated *)
Replace(d) ==
  /\ Cardinality(Running) <= 1
  /\ dump' = d /\ astray' = astray \cup Running
  /\ UNCHANGED <<status, command, harm, exit, output, stray>>

(* runs on the dump as it was and as it is do not overlap *)
Begin(r, c) ==
  /\ status[r] = "idle" /\ Running \cap astray = {}
  /\ status' = [status EXCEPT ![r] = "running"] /\ command' = [command EXCEPT ![r] = c]
  /\ UNCHANGED <<dump, harm, exit, output, stray, astray>>

Fault(r, op) ==
  /\ status[r] = "running"
  /\ harm' = [harm EXCEPT ![r] = @ \cup {op}]
  /\ UNCHANGED <<dump, status, command, exit, output, stray, astray>>

(* a killed run may leave files of its own *)
Kill(r, leaves) ==
  /\ status[r] = "running"
  /\ status' = [status EXCEPT ![r] = "killed"]
  /\ stray' = stray \cup leaves
  /\ UNCHANGED <<dump, command, harm, exit, output, astray>>

(* How a run may end.  Good(d, c): the report of command c on version d exists, *)
(* i.e. the dump is well-formed and has what the report is about.               *)
Succeeds(r, Good(_, _), out) ==
  /\ Good(dump, command[r]) /\ out = <<"report", dump>>
Fails(r, Good(_, _), out) ==
  IF harm[r] = {} THEN ~Good(dump, command[r]) /\ out = <<"reason">>
  ELSE "stdout" \in harm[r] \/ out \in {<<"reason">>, <<"part">>}
(* cleaning up needs these; a run that could not do them may leave files *)
Cleaning == {"unlink", "open", "list", "stat"}
Leaves(r, leaves) == leaves = {} \/ harm[r] \cap Cleaning # {}

End(r, Good(_, _), how, out, leaves) ==
  /\ status[r] = "running"
  /\ \/ r \in astray
     \/ how = "ok" /\ Succeeds(r, Good, out)
     \/ how = "failed" /\ Fails(r, Good, out)
  /\ Leaves(r, leaves)
  /\ status' = [status EXCEPT ![r] = "ended"]
  /\ exit' = [exit EXCEPT ![r] = how] /\ output' = [output EXCEPT ![r] = out]
  /\ stray' = stray \cup leaves
  /\ UNCHANGED <<dump, command, harm, astray>>
=============================================================================
