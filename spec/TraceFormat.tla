----------------------------- MODULE TraceFormat -----------------------------
(* What the real code rendered, against Format.  One scenario is a list of   *)
(* renderings.                                                               *)
EXTENDS Format, Json

Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, k
vars == <<l, k>>

(* a method descriptor is rendered as arguments and return type, a field     *)
(* descriptor (the type of a local) as if it were an argument                *)
Sig(o) == IF o.in # <<>> /\ o.in[1] = LPAR
          THEN LET m == MethodType(o.in) IN ~m.ok \/ (o.args = ArgText(m.args) /\ o.ret = m.ret)
          ELSE LET f == FieldType(o.in) IN ~f.ok \/ o.args = f.text
ClassObs(o) == o.out = Dotted(o.in)
SizeObs(o) == o.out = SizeText(BOfBytes(o.in))
Good(o) == CASE o.kind = "sig" -> Sig(o) [] o.kind = "class" -> ClassObs(o) [] o.kind = "size" -> SizeObs(o) [] OTHER -> FALSE

Observe == /\ l <= Len(Trace) /\ k <= Len(Trace[l].obs)
           /\ IF Good(Trace[l].obs[k]) THEN TRUE
              ELSE PrintT(<<"VERDICT", ToJson([l |-> l, k |-> k, v |-> <<"reject", "rendering">>])>>)
           /\ k' = k + 1 /\ l' = l
NextScenario == l <= Len(Trace) /\ k > Len(Trace[l].obs) /\ l' = l + 1 /\ k' = 1
Init == l = 1 /\ k = 1
Next == Observe \/ NextScenario
Spec == Init /\ [][Next]_vars
Done == l = Len(Trace) + 1 => PrintT(<<"DONE", l - 1>>)
=============================================================================
