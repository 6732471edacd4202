-------------------------------- MODULE Layout --------------------------------
(* How the plain and color reports are laid out: tables whose columns line   *)
(* up, values that start in one column, threads with their frames and locals *)
(* indented, colors that end with the line.  Lines are sequences of           *)
(* characters (code points), without the line feed; the last of a report is   *)
(* empty.                                                                     *)
EXTENDS Naturals, Sequences, FiniteSets

Space == 32
Tab == 9
Bar == 124
Dash == 45
Colon == 58
Esc == 27
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Places(s, c) == {i \in 1..Len(s) : s[i] = c}
Blank(c) == c \in {Space, Tab}
BlankLine(s) == \A i \in 1..Len(s) : Blank(s[i])
Begins(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t

-----------------------------------------------------------------------------
(* The table of the objects report.  The header says where the columns are:  *)
(* each ends with a bar; names are flush left, counts and sizes flush right   *)
IsHeader(h) == Cardinality(Places(h, Bar)) = 3 /\ ~Blank(h[1]) /\ h[Len(h)] = Bar
IsRule(r, h) == Len(r) = Len(h) /\ \A i \in 1..Len(r) : r[i] = Dash
CellEnds(s, b) == s[b] = Bar /\ s[b - 1] = Space
FlushRight(s, b) == s[b - 2] # Space
(* bars of a row: there may be others in the name *)
Fits(row, h) ==
  LET B == Places(h, Bar)
      first == MinOf(B)
  IN /\ Len(row) = Len(h)
     /\ \A b \in B : CellEnds(row, b)
     /\ \A b \in B \ {first} : FlushRight(row, b)
     /\ row[1] # Space /\ row[first + 1] = Space
     /\ \A i \in (first + 1)..Len(row) : row[i] = Bar => i \in B
HeaderFits(h) == LET B == Places(h, Bar) IN \A b \in B : CellEnds(h, b) /\ (b = MinOf(B) \/ FlushRight(h, b))
Table(h, r, rows) == /\ IsHeader(h) /\ HeaderFits(h) /\ IsRule(r, h)
                     /\ \A i \in 1..Len(rows) : Fits(rows[i], h)

(* the whole report: two lines of totals, the table *)
ObjectsLayout(lines) ==
  /\ Len(lines) >= 6 /\ lines[Len(lines)] = <<>>
  /\ \A i \in 1..2 : ~BlankLine(lines[i]) /\ ~Blank(lines[i][1])
  /\ BlankLine(lines[3])
  /\ Table(lines[4], lines[5], SubSeq(lines, 6, Len(lines) - 1))

-----------------------------------------------------------------------------
(* The summary: titles, and below each of them keys with values, which all    *)
(* start in the same column; empty lines between.  Where other characters     *)
(* than ASCII come before that column nothing is said                         *)
IsTitle(s) == Begins(s, <<Dash, Space>>)
ValueColumn(s) == MinOf({i \in 1..Len(s) : ~Blank(s[i]) /\ i > MinOf(Places(s, Colon))})
Ascii(s, n) == \A i \in 1..n : i <= Len(s) => s[i] < 128
ValueAt(s, c) == /\ Len(s) < c - 1 \/ Blank(s[c - 1])
                 /\ Len(s) < c \/ ~Blank(s[c])
                 /\ Len(s) < c => \E i \in 1..Len(s) : s[i] = Colon /\ \A j \in (i + 1)..Len(s) : Blank(s[j])
SummaryLayout(lines) ==
  LET E == {i \in 1..Len(lines) : ~BlankLine(lines[i]) /\ ~IsTitle(lines[i])}
      up == {i \in E : Begins(lines[i], <<74, 86, 77, Space, 85, 112, 116, 105, 109, 101, Colon>>)}   \* JVM Uptime:
  IN /\ Cardinality(up) = 1 /\ lines[Len(lines)] = <<>>
     /\ LET c == ValueColumn(lines[CHOOSE i \in up : TRUE]) IN
        \A i \in E : Ascii(lines[i], c - 1) => ValueAt(lines[i], c)
     /\ IsTitle(lines[1])
     /\ \A i \in 2..Len(lines) : IsTitle(lines[i]) => BlankLine(lines[i - 1])

-----------------------------------------------------------------------------
(* The thread dump: the line of a thread at the margin, its frames indented,  *)
(* locals more so; an empty line after each thread                            *)
Indent(s) == MinOf({i \in 1..Len(s) : ~Blank(s[i])}) - 1
Body(s) == SubSeq(s, Indent(s) + 1, Len(s))
IsLocal(s) == Begins(Body(s), <<108, 111, 99, 97, 108, Space>>)   \* local
ThreadsLayout(lines) ==
  LET T == {i \in 1..Len(lines) : ~BlankLine(lines[i]) /\ ~Blank(lines[i][1])}
      L == {i \in 1..Len(lines) : ~BlankLine(lines[i]) /\ Blank(lines[i][1]) /\ IsLocal(lines[i])}
      F == {i \in 1..Len(lines) : ~BlankLine(lines[i]) /\ Blank(lines[i][1])} \ L
      atF == {Indent(lines[i]) : i \in F}
      atL == {Indent(lines[i]) : i \in L}
  IN /\ Cardinality(atF) <= 1 /\ Cardinality(atL) <= 1
     /\ \A a \in atF : \A b \in atL : a < b
     /\ L # {} => F # {}
     /\ \A i \in 1..Len(lines) : lines[i] = <<>> \/ ~BlankLine(lines[i])
     /\ \A i \in T : i = 1 \/ lines[i - 1] = <<>>
     /\ \A i \in 1..(Len(lines) - 1) : lines[i] = <<>> => i > 1 /\ (lines[i + 1] = <<>> => i + 1 = Len(lines)) /\ (i + 1 = Len(lines) \/ i + 1 \in T)
     /\ lines[Len(lines)] = <<>> /\ (Len(lines) > 1 => 1 \in T /\ lines[Len(lines) - 1] = <<>>)

-----------------------------------------------------------------------------
(* Colors: ESC [ digits m; 0 ends them all.  None is left on at the end of a  *)
(* line, and nothing is said about which ones there are                       *)
EscEnd(s, i) == LET E == {j \in (i + 1)..Len(s) : s[j] = 109} IN IF E = {} THEN 0 ELSE MinOf(E)
EscOk(s, i) == LET e == EscEnd(s, i) IN
               e > i + 2 /\ s[i + 1] = 91 /\ \A j \in (i + 2)..(e - 1) : s[j] \in (48..57) \cup {59}
IsOff(s, i) == EscEnd(s, i) = i + 3 /\ s[i + 2] = 48
ColorsEnd(s) == LET E == Places(s, Esc) IN
                /\ \A i \in E : EscOk(s, i)
                /\ E # {} => IsOff(s, MaxOf(E))
Colored(lines) == \E i \in 1..Len(lines) : Places(lines[i], Esc) # {}
(* the line without its colors *)
Bare(s) == LET E == Places(s, Esc) IN
           IF E = {} THEN s
           ELSE LET Out == UNION {i..EscEnd(s, i) : i \in E}
                    keep == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : i \notin Out)
                IN [k \in 1..Len(keep) |-> s[keep[k]]]
=============================================================================
