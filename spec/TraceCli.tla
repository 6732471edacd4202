------------------------------- MODULE TraceCli -------------------------------
(* Real runs with all sorts of arguments, against Cli.  One line holds runs   *)
(* on the same two dumps: the arguments, which of them are paths of which     *)
(* dump, and what was observed of the run.                                    *)
EXTENDS Cli, Json

Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, k, seen   \* seen: what a report was like -> its output
vars == <<cliVars, l, k, seen>>

Obs == Trace[l].obs
O == Obs[k]
None == [x \in {} |-> ""]
Begin(o) == IF o.args = <<>> THEN Parse(<<>>, <<>>) ELSE Parse(Head(o.args), Tail(o.args))
BeginNext(o) == IF o.args = <<>> THEN ParseNext(<<>>, <<>>) ELSE ParseNext(Head(o.args), Tail(o.args))

(* dump a path denotes, "" if none *)
Dump == LET S == {i \in 1..Len(O.paths) : O.paths[i][1] = opt.hprof} IN IF S = {} THEN "" ELSE O.paths[CHOOSE i \in S : TRUE][2]
ToSet(s) == {s[i] : i \in 1..Len(s)}
Untouched == O.touched = <<>>
(* usage: the options of the sub-commands, all of them and no others *)
Explains(ss) == /\ Len(O.usages) = Cardinality(ss)
                /\ \A s \in ss : \E i \in 1..Len(O.usages) : O.usages[i][1] = s /\ ToSet(O.usages[i][2]) = Options(s) /\ Len(O.usages[i][2]) = Cardinality(Options(s))
Fails == O.exit # 0 /\ ~O.report /\ O.reason
Key == <<Dump, Report>>
Why ==
  CASE O.hang \/ O.crashed -> "crash or hang"
    [] result = "open" -> IF ToSet(O.touched) \subseteq {"A", "B", "D"} THEN "" ELSE "something else is touched"
    [] result = "help" -> IF ~O.report /\ Untouched /\ Explains(SubCommands) THEN "" ELSE "help"
    [] result = "usage" -> IF O.exit = 0 /\ ~O.report /\ Untouched /\ Explains({sub}) THEN "" ELSE "usage"
    [] result = "refused" -> IF Fails /\ Untouched THEN "" ELSE "not refused"
    [] result = "run" /\ Dump = "" -> IF Fails /\ ToSet(O.touched) \subseteq {"D"} THEN "" ELSE "no dump, but not refused"
    [] result = "run" ->
         IF O.exit # 0 \/ ~O.report THEN "no report"
         ELSE IF ~(ToSet(O.touched) \subseteq {Dump}) THEN "something else than the index is touched"
         ELSE IF ~opt.live /\ O.err THEN "standard error is written without progress"
         ELSE IF O.sub # sub THEN "report of another sub-command"
         ELSE IF O.form # Form THEN "form of the report"
         ELSE IF sub = T("objects") /\ O.size # opt.size THEN "order of the report"
         ELSE IF sub # T("objects") /\ O.more # opt.more THEN "more, or less, than asked for"
         ELSE IF Key \in DOMAIN seen /\ seen[Key] # O.out THEN "another report with the same options"
         ELSE ""
Parsing == l <= Len(Trace) /\ k <= Len(Obs) /\ CliStep /\ UNCHANGED <<l, k, seen>>
Judged ==
  /\ l <= Len(Trace) /\ k <= Len(Obs) /\ Decided
  /\ IF Why = "" THEN TRUE ELSE PrintT(<<"VERDICT", ToJson([l |-> l, k |-> k, v |-> <<"reject", Why, result, opt>>])>>)
  /\ seen' = IF result = "run" /\ O.exit = 0 /\ Key \notin DOMAIN seen THEN (Key :> O.out) @@ seen ELSE seen
  /\ k' = k + 1 /\ l' = l
  /\ IF k < Len(Obs) THEN BeginNext(Obs[k + 1]) ELSE UNCHANGED cliVars
NextScenario ==
  /\ l <= Len(Trace) /\ k > Len(Obs) /\ l' = l + 1 /\ k' = 1 /\ seen' = None
  /\ IF l < Len(Trace) THEN BeginNext(Trace[l + 1].obs[1]) ELSE UNCHANGED cliVars
Init == l = 1 /\ k = 1 /\ seen = None /\ Begin(Trace[1].obs[1])
Next == Parsing \/ Judged \/ NextScenario
Spec == Init /\ [][Next]_vars
Done == l = Len(Trace) + 1 => PrintT(<<"DONE", l - 1>>)
=============================================================================
