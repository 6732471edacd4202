-------------------------------- MODULE Publish --------------------------------
(* How the index of a dump is made and used: every run looks whether there is *)
(* an index of the dump as it is now; if not, it builds one in a directory of *)
(* its own and puts the files in place one by one, the file that says which   *)
(* dump the index belongs to first removed and put in place last.  Several    *)
(* runs do so at the same time, any of them may be killed or meet a fault     *)
(* between any two of its operations.                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS
  Procs,     \* runs
  Versions,  \* versions of the dump: numbers, 0 is not one of them
  Refused,   \* those that cannot be indexed (truncated, malformed)
  Files,     \* number of files of the index, besides the one that names the dump
  Kills, Faults, Changes,  \* how many of each may happen
  Variant    \* "safe", or a way to do it that is not safe, see below

VARIABLES
  dump,      \* version of the dump
  place,     \* 1..Files -> <<>> (no file), <<version, complete>>: the index in place
  source,    \* <<>>, or <<version>>: the file that names the dump of the index
  own,       \* run -> files of its own directory: <<>> if there is none
  pc, i,     \* run -> what it does next, on which file
  stamp,     \* run -> version it saw when it opened the dump
  got,       \* run -> version of each file of the index it has opened
  out,       \* run -> output
  harm,      \* run -> faults it met
  astray,    \* runs under which the dump was replaced by another file; they have opened the old one
  left       \* operations of the environment that may still happen: [kill, fault, change]
vars == <<dump, place, source, own, pc, i, stamp, got, out, harm, astray, left>>

F == 1..Files
None == [f \in F |-> <<>>]
NoDir == [f \in {} |-> <<>>]
Active == {p \in Procs : pc[p] \notin {"idle", "ended", "killed"}}

Init ==
  /\ dump \in Versions /\ place = None /\ source = <<>>
  /\ own = [p \in Procs |-> NoDir] /\ pc = [p \in Procs |-> "idle"] /\ i = [p \in Procs |-> 1]
  /\ stamp = [p \in Procs |-> 0] /\ got = [p \in Procs |-> <<>>] /\ out = [p \in Procs |-> <<>>]
  /\ harm = [p \in Procs |-> {}] /\ astray = {} /\ left = [kill |-> Kills, fault |-> Faults, change |-> Changes]

Step(p, from, to) == pc[p] = from /\ pc' = [pc EXCEPT ![p] = to]
At(p, n) == i' = [i EXCEPT ![p] = n]

Begin(p) == /\ Active \cap astray = {}
            /\ Step(p, "idle", "look")
            /\ UNCHANGED <<dump, place, source, own, i, stamp, got, out, harm, astray, left>>
(* is there an index of this dump? *)
Look(p) == /\ stamp' = [stamp EXCEPT ![p] = dump]
           /\ Step(p, "look", IF source = <<dump>> \/ (Variant = "nosource" /\ \A f \in F : place[f] # <<>>) THEN "use" ELSE "mkdir")
           /\ UNCHANGED <<dump, place, source, own, i, got, out, harm, astray, left>>
Mkdir(p) == /\ Step(p, "mkdir", "create") /\ At(p, 1)
            /\ own' = [own EXCEPT ![p] = None]
            /\ UNCHANGED <<dump, place, source, stamp, got, out, harm, astray, left>>
(* the files are written piece by piece; a dump that is refused shows while  *)
(* the first of them is written                                              *)
Put(p, f, x) == IF Variant = "inplace"
                THEN place' = [place EXCEPT ![f] = x] /\ UNCHANGED own
                ELSE own' = [own EXCEPT ![p][f] = x] /\ UNCHANGED place
Create(p) == /\ Step(p, "create", "write")
             /\ Put(p, i[p], <<stamp[p], FALSE>>)
             /\ UNCHANGED <<dump, source, i, stamp, got, out, harm, astray, left>>
Write(p) == IF stamp[p] \in Refused
            THEN /\ Step(p, "write", "clean") /\ out' = [out EXCEPT ![p] = <<"reason">>]
                 /\ UNCHANGED <<dump, place, source, own, i, stamp, got, harm, astray, left>>
            ELSE /\ Step(p, "write", IF i[p] = Files THEN "remove" ELSE "create")
                 /\ Put(p, i[p], <<stamp[p], TRUE>>)
                 /\ At(p, IF i[p] = Files THEN 1 ELSE i[p] + 1)
                 /\ UNCHANGED <<dump, source, stamp, got, out, harm, astray, left>>
Remove(p) == /\ Step(p, "remove", "rename")
             /\ source' = CASE Variant = "early" -> <<stamp[p]>> [] Variant = "keep" -> source [] OTHER -> <<>>
             /\ UNCHANGED <<dump, place, own, i, stamp, got, out, harm, astray, left>>
Rename(p) == /\ Step(p, "rename", IF i[p] = Files THEN "name" ELSE "rename")
             /\ place' = IF Variant = "inplace" THEN place ELSE [place EXCEPT ![i[p]] = own[p][i[p]]]
             /\ At(p, IF i[p] = Files THEN 1 ELSE i[p] + 1)
             /\ UNCHANGED <<dump, source, own, stamp, got, out, harm, astray, left>>
Name(p) == /\ Step(p, "name", "clean")
           /\ source' = <<IF Variant = "late" THEN dump ELSE stamp[p]>>
           /\ UNCHANGED <<dump, place, own, i, stamp, got, out, harm, astray, left>>
Clean(p) == /\ Step(p, "clean", IF out[p] = <<>> THEN "use" ELSE "end")
            /\ own' = [own EXCEPT ![p] = IF Variant = "dirty" /\ out[p] # <<>> THEN @ ELSE NoDir]
            /\ UNCHANGED <<dump, place, source, i, stamp, got, out, harm, astray, left>>
(* the report is made from the files of the index and the dump *)
Open(p) == /\ pc[p] = "use"
           /\ IF place[i[p]] = <<>>
              THEN Step(p, "use", "end") /\ out' = [out EXCEPT ![p] = <<"reason">>] /\ UNCHANGED <<got, i>>
              ELSE /\ got' = [got EXCEPT ![p] = Append(@, place[i[p]])]
                   /\ Step(p, "use", IF i[p] = Files THEN "report" ELSE "use")
                   /\ At(p, i[p] + 1) /\ UNCHANGED out
           /\ UNCHANGED <<dump, place, source, own, stamp, harm, astray, left>>
Report(p) == /\ Step(p, "report", "end")
             /\ out' = [out EXCEPT ![p] = IF \A n \in 1..Len(got[p]) : got[p][n] = <<dump, TRUE>> THEN <<"report", dump>> ELSE <<"wrong">>]
             /\ UNCHANGED <<dump, place, source, own, i, stamp, got, harm, astray, left>>
Finish(p) == /\ Step(p, "end", "ended")
             /\ UNCHANGED <<dump, place, source, own, i, stamp, got, out, harm, astray, left>>

Move(p) == \/ Look(p) \/ Mkdir(p) \/ Create(p) \/ Write(p) \/ Remove(p) \/ Rename(p) \/ Name(p)
           \/ Clean(p) \/ Open(p) \/ Report(p) \/ Finish(p)

-----------------------------------------------------------------------------
(* the environment *)
KillRun(p) == /\ p \in Active /\ left.kill > 0
              /\ pc' = [pc EXCEPT ![p] = "killed"] /\ left' = [left EXCEPT !.kill = @ - 1]
              /\ UNCHANGED <<dump, place, source, own, i, stamp, got, out, harm, astray>>
(* an operation fails: the run cleans up and says why *)
OpName(p) == CASE pc[p] \in {"look", "use"} -> "open" [] pc[p] = "clean" -> "unlink" [] pc[p] = "report" -> "stdout"
               [] pc[p] = "mkdir" -> "mkdir" [] pc[p] = "create" -> "open" [] pc[p] = "write" -> "write"
               [] pc[p] = "remove" -> "unlink" [] pc[p] \in {"rename", "name"} -> "rename"
FaultRun(p) == /\ p \in Active /\ pc[p] # "end" /\ left.fault > 0
               /\ left' = [left EXCEPT !.fault = @ - 1]
               /\ harm' = [harm EXCEPT ![p] = @ \cup {OpName(p)}]
               /\ IF pc[p] = "clean" THEN pc' = [pc EXCEPT ![p] = IF out[p] = <<>> THEN "use" ELSE "end"] /\ UNCHANGED out
                  ELSE IF Variant = "unaware" /\ pc[p] = "write" THEN pc' = [pc EXCEPT ![p] = "remove"] /\ UNCHANGED out
                  ELSE /\ pc' = [pc EXCEPT ![p] = IF own[p] = NoDir THEN "end" ELSE "clean"]
                       /\ out' = [out EXCEPT ![p] = <<"reason">>]
               /\ i' = [i EXCEPT ![p] = IF pc[p] \in {"clean", "write"} THEN 1 ELSE @]
               /\ UNCHANGED <<dump, place, source, own, stamp, got, astray>>
ChangeDump == /\ Cardinality(Active) <= 1 /\ left.change > 0
              /\ \E v \in Versions : v # dump /\ dump' = v
              /\ astray' = astray \cup Active
              /\ left' = [left EXCEPT !.change = @ - 1]
              /\ UNCHANGED <<place, source, own, pc, i, stamp, got, out, harm>>

Next == (\E p \in Procs : Begin(p) \/ Move(p) \/ KillRun(p) \/ FaultRun(p)) \/ ChangeDump
Fairness == \A p \in Procs : WF_vars(Move(p))
Spec == Init /\ [][Next]_vars /\ Fairness

-----------------------------------------------------------------------------
(* the file that names the dump is only there beside the complete index of it *)
NamedIsComplete ==
  source # <<>> => \A f \in F : place[f] = <<source[1], TRUE>>
(* nothing incomplete is ever in place *)
PlacedIsComplete == \A f \in F : place[f] # <<>> => place[f][2]
NeverWrong == \A p \in Procs \ astray : out[p] # <<"wrong">>
(* only killed runs, and runs that could not remove them, leave files of their own *)
NoLitter == \A p \in Procs : pc[p] = "ended" => own[p] = NoDir \/ "unlink" \in harm[p]
EveryRunEnds == \A p \in Procs : [](pc[p] # "idle" => <>(pc[p] \in {"ended", "killed"}))

(* refinement: this is what the user sees *)
Visible == INSTANCE Runs WITH
  dump <- dump,
  status <- [p \in Procs |-> IF pc[p] \in {"idle", "ended", "killed"} THEN pc[p] ELSE "running"],
  command <- [p \in Procs |-> <<>>],
  harm <- harm,
  exit <- [p \in Procs |-> IF pc[p] # "ended" THEN "" ELSE IF out[p][1] = "report" THEN "ok" ELSE "failed"],
  output <- [p \in Procs |-> IF pc[p] # "ended" THEN <<>> ELSE out[p]],
  astray <- astray,
  stray <- {p \in Procs : pc[p] \in {"ended", "killed"} /\ own[p] # NoDir}
GoodDump(d, c) == d \notin Refused
VisibleNext ==
  \/ \E d \in Versions : Visible!Replace(d)
  \/ \E p \in Procs : \/ Visible!Begin(p, <<>>)
                      \/ \E op \in {"open", "unlink", "mkdir", "write", "rename", "stdout"} : Visible!Fault(p, op)
                      \/ \E leaves \in {{}, {p}} :
                           \/ Visible!Kill(p, leaves)
                           \/ \E how \in {"ok", "failed"} : \E o \in {<<"report", d>> : d \in Versions} \cup {<<"reason">>, <<"part">>, <<"wrong">>} :
                                Visible!End(p, GoodDump, how, o, leaves)
SeenByUser == [][VisibleNext]_(Visible!runVars)
=============================================================================
