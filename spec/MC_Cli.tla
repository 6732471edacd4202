-------------------------------- MODULE MC_Cli --------------------------------
(* All short argument lists made of options in all their spellings: what a run *)
(* does follows from the last of each option, whatever their order.  They are  *)
(* printed for the real program.                                               *)
EXTENDS Cli, Json

CONSTANTS MaxItems
VARIABLES items, args
vars == <<cliVars, items, args>>

D == T("--")
(* [args, option, what it makes of it]; option <<>>: refused, or usage *)
I(a, o, v) == [args |-> a, opt |-> o, val |-> v]
Flag(n, o, on) == {I(<<D \o n>>, o, on), I(<<T("-") \o n>>, o, on), I(<<D \o n \o T("=true")>>, o, on), I(<<T("-") \o n \o T("=0")>>, o, ~on)}
Val(n, v, o, is) == {I(<<D \o n, v>>, o, is), I(<<T("-") \o n \o T("=") \o v>>, o, is)}
(* in all spellings *)
Common == Val(T("hprof"), T("@A"), "hprof", T("@A")) \cup Val(T("hprof"), T("@B"), "hprof", T("@B"))
          \cup Flag(T("no-color"), "color", FALSE) \cup {I(<<T("--non-interactive")>>, "live", FALSE)}
          \cup Val(T("output"), T("html"), "html", TRUE) \cup Val(T("output"), T("plain"), "html", FALSE) \cup Val(T("output"), <<>>, "html", FALSE)
Bad == {I(<<T("--output"), T("xml")>>, "refused", 0), I(<<T("--output=HTML")>>, "refused", 0), I(<<T("--no-color=maybe")>>, "refused", 0),
        I(<<T("--verbose")>>, "refused", 0), I(<<T("---hprof")>>, "refused", 0), I(<<T("-=x")>>, "refused", 0), I(<<T("--sort")>>, "refused", 0)}
Own(s) == CASE s = T("objects") -> Val(T("sort-by"), T("size"), "size", TRUE) \cup Val(T("sort-by"), T("count"), "size", FALSE)
                                   \cup {I(<<T("--sort-by"), T("name")>>, "refused", 0), I(<<T("--local-vars")>>, "refused", 0)}
            [] s = T("threads") -> Flag(T("local-vars"), "more", TRUE) \cup {I(<<T("--all-props")>>, "refused", 0), I(<<T("--sort-by"), T("size")>>, "refused", 0)}
            [] s = T("summary") -> Flag(T("all-props"), "more", TRUE) \cup {I(<<T("--local-vars")>>, "refused", 0)}
Help == {I(<<T("-h")>>, "usage", 0), I(<<T("--help")>>, "usage", 0)}
Items(s) == Common \cup Bad \cup Own(s) \cup Help

RECURSIVE ArgsOf(_)
ArgsOf(is) == IF is = <<>> THEN <<>> ELSE Head(is).args \o ArgsOf(Tail(is))

Choose(s) == \E n \in 0..MaxItems : \E f \in [1..n -> Items(s)] :
                items = f /\ args = ArgsOf(f) /\ Parse(s, args)
Init == \E s \in SubCommands : Choose(s)
Next == CliStep /\ UNCHANGED <<items, args>>
Spec == Init /\ [][Next]_vars

Ends == {i \in 1..Len(items) : items[i].opt \in {"refused", "usage"}}
Last(o) == LET S == {i \in 1..Len(items) : items[i].opt = o} IN IF S = {} THEN Default[o] ELSE items[CHOOSE i \in S : \A j \in S : j <= i].val
(* the first that is refused, or asks for help, decides; without one the last of each option *)
Meaning == Decided =>
  IF Ends # {} THEN result = items[MinOf(Ends)].opt
  ELSE /\ result = IF Last("hprof") = <<>> THEN "usage" ELSE "run"
       /\ \A o \in DOMAIN opt : opt[o] = Last(o)
Printed == Decided => PrintT(<<"ARGS", ToJson(<<sub>> \o args)>>)
=============================================================================
