--------------------------------- MODULE Cli ---------------------------------
(* The command line: `neojhat sub-command options`.  The arguments after the *)
(* sub-command are taken from left to right; what they ask for is in opt, and *)
(* result says what the run is going to do.                                   *)
EXTENDS Text

VARIABLES
  sub,      \* the sub-command (bytes)
  rest,     \* arguments that have not been looked at
  opt,      \* what has been asked for
  result    \* "parsing", "help", "usage", "refused", "run"; "open" if nothing is said about it
cliVars == <<sub, rest, opt, result>>

SubCommands == {T("threads"), T("summary"), T("objects")}
(* the option of a sub-command that shows more *)
More(s) == CASE s = T("threads") -> {T("local-vars")} [] s = T("summary") -> {T("all-props")} [] OTHER -> {}
Switches(s) == {T("no-color"), T("non-interactive")} \cup More(s)
Valued(s) == {T("hprof"), T("output")} \cup (IF s = T("objects") THEN {T("sort-by")} ELSE {})
Options(s) == Switches(s) \cup Valued(s)

Yes == {T("1"), T("t"), T("T"), T("true"), T("TRUE"), T("True")}
No == {T("0"), T("f"), T("F"), T("false"), T("FALSE"), T("False")}
Outputs == {T("plain"), T("html"), <<>>}
Sorts == {T("count"), T("size"), <<>>}

Default == [hprof |-> <<>>, html |-> FALSE, size |-> FALSE, color |-> TRUE, live |-> TRUE, more |-> FALSE]
Parse(s, args) == sub = s /\ rest = args /\ opt = Default /\ result = IF s \in SubCommands THEN "parsing" ELSE "help"
ParseNext(s, args) == sub' = s /\ rest' = args /\ opt' = Default /\ result' = IF s \in SubCommands THEN "parsing" ELSE "help"

DASH == 45  EQUALS == 61
(* an argument: -name, --name, -name=value or --name=value *)
Arg == Head(rest)
Dashes(a) == IF Len(a) < 2 \/ a[1] # DASH THEN 0 ELSE IF a[2] # DASH THEN 1 ELSE 2
Body(a) == SubSeq(a, Dashes(a) + 1, Len(a))
At(b) == LET E == {i \in 2..Len(b) : b[i] = EQUALS} IN IF E = {} THEN 0 ELSE MinOf(E)
Name(a) == LET b == Body(a) IN IF At(b) = 0 THEN b ELSE SubSeq(b, 1, At(b) - 1)
HasValue(a) == At(Body(a)) # 0
ValueOf(a) == LET b == Body(a) IN SubSeq(b, At(b) + 1, Len(b))

Becomes(r) == result' = r /\ UNCHANGED <<sub, rest, opt>>
(* the end of the options: what follows is not for this program *)
Stray == Dashes(Arg) = 0 \/ Arg = <<DASH, DASH>>
Malformed_ == ~Stray /\ Body(Arg)[1] \in {DASH, EQUALS}
Known == ~Stray /\ ~Malformed_ /\ Name(Arg) \in Options(sub)

Switch(n, on) == CASE n = T("no-color") -> [opt EXCEPT !.color = ~on]
                   [] n = T("non-interactive") -> [opt EXCEPT !.live = ~on]
                   [] OTHER -> [opt EXCEPT !.more = on]
Set(n, v) == CASE n = T("hprof") -> [opt EXCEPT !.hprof = v]
               [] n = T("output") -> [opt EXCEPT !.html = v = T("html")]
               [] n = T("sort-by") -> [opt EXCEPT !.size = v = T("size")]
Allowed(n, v) == CASE n = T("output") -> v \in Outputs [] n = T("sort-by") -> v \in Sorts [] OTHER -> TRUE

TakeStray == /\ result = "parsing" /\ rest # <<>> /\ Stray /\ Becomes("open")
TakeBad == /\ result = "parsing" /\ rest # <<>> /\ ~Stray /\ ~Known
           /\ Becomes(IF ~Malformed_ /\ Name(Arg) \in {T("h"), T("help")} THEN "usage" ELSE "refused")
TakeSwitch ==
  /\ result = "parsing" /\ rest # <<>> /\ Known /\ Name(Arg) \in Switches(sub)
  /\ IF HasValue(Arg) /\ ValueOf(Arg) \notin Yes \cup No THEN Becomes("refused")
     ELSE /\ opt' = Switch(Name(Arg), ~HasValue(Arg) \/ ValueOf(Arg) \in Yes)
          /\ rest' = Tail(rest) /\ UNCHANGED <<sub, result>>
TakeValued ==
  /\ result = "parsing" /\ rest # <<>> /\ Known /\ Name(Arg) \in Valued(sub)
  /\ LET next == ~HasValue(Arg) IN
     IF next /\ Len(rest) = 1 THEN Becomes("refused")
     ELSE LET v == IF next THEN rest[2] ELSE ValueOf(Arg) IN
          IF ~Allowed(Name(Arg), v) THEN Becomes("refused")
          ELSE /\ opt' = Set(Name(Arg), v)
               /\ rest' = SubSeq(rest, IF next THEN 3 ELSE 2, Len(rest)) /\ UNCHANGED <<sub, result>>
(* without a dump there is nothing to do but to say how it is done *)
AllTaken == result = "parsing" /\ rest = <<>> /\ Becomes(IF opt.hprof = <<>> THEN "usage" ELSE "run")
CliStep == TakeStray \/ TakeBad \/ TakeSwitch \/ TakeValued \/ AllTaken
Decided == result # "parsing"

(* what a report is like: two runs with the same have the same output        *)
Form == IF opt.html THEN "html" ELSE IF opt.color THEN "color" ELSE "plain"
Report == [sub |-> sub, form |-> Form, size |-> opt.size, more |-> opt.more]
=============================================================================
