----------------------------- MODULE TraceLayout -----------------------------
(* Reports of the real program, against Layout.  One line holds the reports  *)
(* on one dump, as lines of characters.                                       *)
EXTENDS Layout, Json, TLC

Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, k
vars == <<l, k>>

Laid(of, lines) == CASE of = "objects" -> ObjectsLayout(lines)
                     [] of = "summary" -> SummaryLayout(lines)
                     [] of = "threads" -> ThreadsLayout(lines)
Why(o) ==
  IF o.exit # 0 THEN "no report"
  ELSE IF o.form = "plain" THEN IF Colored(o.lines) THEN "colors in a plain report" ELSE IF Laid(o.of, o.lines) THEN "" ELSE "layout of the plain report"
  ELSE IF ~\A i \in 1..Len(o.lines) : ColorsEnd(o.lines[i]) THEN "a color that does not end"
  ELSE IF Len(o.lines) > 1 /\ ~Colored(o.lines) THEN "no colors"
  ELSE IF Laid(o.of, [i \in 1..Len(o.lines) |-> Bare(o.lines[i])]) THEN "" ELSE "layout of the color report"

Observe == /\ l <= Len(Trace) /\ k <= Len(Trace[l].obs)
           /\ LET w == Why(Trace[l].obs[k]) IN
              IF w = "" THEN TRUE ELSE PrintT(<<"VERDICT", ToJson([l |-> l, k |-> k, v |-> <<"reject", w>>])>>)
           /\ k' = k + 1 /\ l' = l
NextScenario == l <= Len(Trace) /\ k > Len(Trace[l].obs) /\ l' = l + 1 /\ k' = 1
Init == l = 1 /\ k = 1
Next == Observe \/ NextScenario
Spec == Init /\ [][Next]_vars
Done == l = Len(Trace) + 1 => PrintT(<<"DONE", l - 1>>)
=============================================================================
