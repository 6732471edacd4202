------------------------------ MODULE MC_Progress ------------------------------
(* A worker that reads the dump, some of it ahead, and a reporter that draws how far it is, again  *)
(* and again; when the worker is done it waits for the reporter to stop, wipes   *)
(* the line and goes on.  Positions and sizes are small numbers; a line is drawn *)
(* as the real one is.  The ticks of the reporter at each position are printed,  *)
(* to be made to happen with the real program.                                   *)
EXTENDS Progress, TLC, Json, Text

CONSTANTS Sizes,    \* what the size of the dump may have been when it was opened
          Ends,     \* where it may really end
          Ticks,    \* how often the reporter draws, at most
          Clamped,  \* FALSE: the display as it was before it was repaired
          Item,     \* how much is announced before it is read
          Buffer,   \* the most that is read at once
          Shows     \* "position", or, broken: "all", "double", "nothing"

VARIABLES size, end, pos, worker, reporter, ticks, bad
vars == <<progVars, size, end, pos, worker, reporter, ticks, bad>>

Percent == IF size = 0 \/ Shows = "all" THEN 10000 ELSE IF Shows = "nothing" THEN 0 ELSE IF Shows = "double" THEN Share(2 * pos, size)
            ELSE IF pos >= size /\ Clamped THEN 10000 ELSE (10000 * pos) \div size
RECURSIVE Times(_, _)
Times(n, s) == IF n = 0 THEN <<>> ELSE s \o Times(n - 1, s)
NatDec(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + (n \div 10), 48 + (n % 10)>>
             ELSE <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
Dec2(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Drawing == LET h == Percent
               n == (h * 4) \div 10000 IN   \* a bar of four blocks will do
           T("P: ") \o NatDec(h \div 100) \o T(".") \o Dec2(h % 100) \o <<37, 32, 91>> \o Times(n, Full) \o Times(4 - n, Void) \o <<93>>
Wipe == <<27, 91, 50, 75, 13>>

Init == /\ StartProgress /\ size \in Sizes /\ end \in Ends /\ pos = 0
        /\ worker = "reading" /\ reporter = "check" /\ ticks = <<0>> /\ bad = FALSE
Read == /\ worker = "reading"
        /\ \/ /\ pos < end /\ pos < got + Item /\ pos' = pos + 1
              /\ ticks' = Append(ticks, 0) /\ UNCHANGED <<progVars, worker>>
           \/ /\ pos >= got /\ \E n \in 1..Buffer : n <= end - got /\ Got(n)
              /\ UNCHANGED <<pos, ticks, worker>>
           \/ pos = end /\ got = end /\ worker' = "cancel" /\ UNCHANGED <<progVars, pos, ticks>>
        /\ UNCHANGED <<size, end, reporter, bad>>
Draw == /\ reporter = "check"
        /\ IF ~Clamped /\ Percent > 10000 THEN bad' = TRUE /\ UNCHANGED progVars  \* a bar of negative length: a crash
           ELSE Write(Drawing, size, size, Item) /\ UNCHANGED bad
        /\ reporter' = "sleep" /\ ticks' = [ticks EXCEPT ![Len(ticks)] = IF @ < Ticks THEN @ + 1 ELSE @]
        /\ UNCHANGED <<size, end, pos, worker>>
Wake == /\ reporter = "sleep" /\ Write(Wipe, size, size, Item) /\ reporter' = "check"
        /\ UNCHANGED <<size, end, pos, worker, ticks, bad>>
(* the rendezvous *)
Stop == /\ worker = "cancel" /\ reporter = "check"
        /\ reporter' = "gone" /\ worker' = "wipe"
        /\ UNCHANGED <<progVars, size, end, pos, ticks, bad>>
WipeLast == /\ worker = "wipe" /\ Write(Wipe, size, size, Item) /\ worker' = "print"
            /\ UNCHANGED <<size, end, pos, reporter, ticks, bad>>
Report == /\ worker = "print" /\ StartPrinting /\ worker' = "done"
          /\ UNCHANGED <<size, end, pos, reporter, ticks, bad>>
Next == Read \/ Draw \/ Wake \/ Stop \/ WipeLast \/ Report
Fair == WF_vars(Read) /\ WF_vars(Wake) /\ WF_vars(WipeLast) /\ WF_vars(Report) /\ SF_vars(Stop)
Spec == Init /\ [][Next]_vars /\ Fair

FewTicks == \A n \in 1..Len(ticks) : ticks[n] <= Ticks
NeverCrashes == ~bad
RunEnds == <>(worker = "done")
StopsBeforePrinting == printing => reporter = "gone"
Shown == [size |-> size, end |-> end, ticks |-> ticks]
Printed == worker = "done" => PrintT(<<"TICKS", ToJson(Shown)>>)
(* how often it has drawn is not told apart beyond Ticks *)
View == <<line, col, IF shown = <<>> THEN <<>> ELSE <<shown[Len(shown)]>>, widths, drawn, printing, readVars, size, end, pos, worker, reporter, ticks, bad, ProgressInv>>
=============================================================================
