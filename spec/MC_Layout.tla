------------------------------ MODULE MC_Layout ------------------------------
(* A table is written in two passes: the widths of the columns are collected *)
(* row by row, then the lines are written one by one.  All tables of a few    *)
(* rows with cells shorter, just as long, and longer than the header's.  The  *)
(* tables are printed, for dumps that have such classes to be made.           *)
EXTENDS Layout, TLC, Json

CONSTANTS Names, Counts, Sizes, MaxRows, Gap, Variant
VARIABLES rows, width, lines, pc
vars == <<rows, width, lines, pc>>

(* lengths of the cells of the header: Class Name, Count (with its mark), Size *)
Head3 == <<10, 7, 4>>
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN <<>> ELSE <<c>> \o Rep(c, n - 1)
X == 120
Left(n, w) == Rep(X, n) \o Rep(Space, w + Gap - n)
Right(n, w) == Rep(Space, w + Gap - n) \o Rep(X, n)
Line(r, w) == Left(r[1], w[1]) \o <<Space, Bar>> \o Right(r[2], w[2]) \o <<Space, Bar>> \o Right(r[3], w[3]) \o <<Space, Bar>>
Rule(w) == Rep(Dash, 3 * Gap + w[1] + w[2] + w[3] + (IF Variant = "rule" THEN 5 ELSE 6))

Init == /\ rows \in UNION {[1..n -> Names \X Counts \X Sizes] : n \in 0..MaxRows}
        /\ width = IF Variant = "noheader" THEN <<0, 0, 0>> ELSE Head3
        /\ lines = <<>> /\ pc = 1
Collect == /\ pc \in 1..Len(rows) /\ lines = <<>>
           /\ width' = [c \in 1..3 |-> IF Variant = "last" THEN Max(rows[pc][c], Head3[c]) ELSE Max(width[c], rows[pc][c])]
           /\ pc' = pc + 1 /\ UNCHANGED <<rows, lines>>
Write == /\ pc > Len(rows) /\ Len(lines) < Len(rows) + 2
         /\ lines' = Append(lines, IF lines = <<>> THEN Line(Head3, width) ELSE IF Len(lines) = 1 THEN Rule(width) ELSE Line(rows[Len(lines) - 1], width))
         /\ UNCHANGED <<rows, width, pc>>
Next == Collect \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Whole == Len(lines) = Len(rows) + 2
(* also of what has been written so far *)
LinesUp == Len(lines) >= 2 => Table(lines[1], lines[2], SubSeq(lines, 3, Len(lines)))
Ends == <>Whole
Printed == Whole => PrintT(<<"TABLE", ToJson(rows)>>)
=============================================================================
