-------------------------------- MODULE Progress --------------------------------
(* The progress display: what a run writes to standard error is a terminal's   *)
(* line that shows how much of the dump has been read, drawn again and again,  *)
(* and wiped before anything is printed.  It knows how many bytes of the dump  *)
(* have been read: what it shows is never ahead of that, nor far behind.       *)
EXTENDS Naturals, Sequences

VARIABLES
  line, col,   \* the terminal's current line (bytes) and the place of the cursor in it
  shown,       \* percentages that have been on it, in hundredths, oldest first
  widths,      \* widths of their bars
  drawn,       \* FALSE if something else than progress was on it
  printing,    \* the report, or the reason why there is none, has begun
  got, chunk,  \* bytes of the dump that have been read, and the most in one read
  before,      \* those that had been when the line was last empty: what is drawn next is not older
  ahead, behind \* the line showed more than had been read; much less
readVars == <<got, chunk, before, ahead, behind>>
progVars == <<line, col, shown, widths, drawn, printing, readVars>>

(* hundredths of a percent, rounded down *)
Share(n, of) == IF of = 0 \/ n >= of THEN 10000
                ELSE LET a == 100 * n IN 100 * (a \div of) + (100 * (a % of)) \div of

Blank == \A n \in 1..Len(line) : line[n] = 32

Digit(c) == c \in 48..57
RECURSIVE Value(_, _)
Value(s, acc) == IF s = <<>> THEN acc ELSE Value(Tail(s), 10 * acc + (Head(s) - 48))
Find(s, c) == IF \E n \in 1..Len(s) : s[n] = c THEN CHOOSE n \in 1..Len(s) : s[n] = c /\ \A m \in 1..(n - 1) : s[m] # c ELSE 0
(* a line of progress: "label: 12.34% [bar]"; the bar is a number of full     *)
(* blocks, then empty ones, each of three bytes.  The parts, or none          *)
Full == <<226, 150, 174>>
Void == <<226, 150, 175>>
NotOne == [ok |-> FALSE, pct |-> 0, full |-> 0, width |-> 0]
ProgressLine(s) ==
  LET colon == Find(s, 58)
      pc == Find(s, 37)
      num == SubSeq(s, colon + 2, pc - 1)
      dot == Find(num, 46)
      whole == SubSeq(num, 1, dot - 1)
      part == SubSeq(num, dot + 1, Len(num))
      bar == SubSeq(s, pc + 3, Len(s) - 1)
      W == Len(bar) \div 3
      block(n) == SubSeq(bar, 3 * n - 2, 3 * n)
      fulls == {n \in 1..W : block(n) = Full}
  IN IF colon < 2 \/ pc < colon + 4 \/ Len(s) < pc + 3 THEN NotOne
     ELSE IF s[colon + 1] # 32 \/ SubSeq(s, pc + 1, pc + 2) # <<32, 91>> \/ s[Len(s)] # 93 THEN NotOne
     ELSE IF dot < 2 \/ Len(part) # 2 \/ Len(whole) > 3 \/ \E n \in 1..Len(num) : n # dot /\ ~Digit(num[n]) THEN NotOne
     ELSE IF Len(bar) # 3 * W \/ \E n \in 1..W : block(n) \notin {Full, Void} THEN NotOne
     ELSE IF \E n \in fulls : \E m \in 1..(n - 1) : m \notin fulls THEN NotOne
     ELSE [ok |-> TRUE, pct |-> 100 * Value(whole, 0) + Value(part, 0),
           full |-> IF fulls = {} THEN 0 ELSE CHOOSE n \in fulls : \A m \in fulls : m <= n, width |-> W]

(* the line is about to go: what was on it?  TRUE in the second place if that  *)
(* was progress, or nothing                                                    *)
Look(ln) == LET p == ProgressLine(ln) IN
            IF \A n \in 1..Len(ln) : ln[n] = 32 THEN <<FALSE, TRUE, p>> ELSE <<p.ok, p.ok, p>>

(* the bar matches: a block is full when its share is reached; the percentage  *)
(* shown is rounded, so at the very edge of a block it may not be              *)
BarFits(p) == LET x == p.pct * p.width IN
              p.full = x \div 10000 \/ ((x % 10000) < p.width /\ p.full + 1 = x \div 10000)

StartProgress == /\ line = <<>> /\ col = 0 /\ shown = <<>> /\ widths = {} /\ drawn = TRUE /\ printing = FALSE
                 /\ got = 0 /\ chunk = 0 /\ before = 0 /\ ahead = FALSE /\ behind = FALSE
RestartProgress == /\ line' = <<>> /\ col' = 0 /\ shown' = <<>> /\ widths' = {} /\ drawn' = TRUE /\ printing' = FALSE
                   /\ got' = 0 /\ chunk' = 0 /\ before' = 0 /\ ahead' = FALSE /\ behind' = FALSE

(* bytes come to the terminal: printable ones, carriage return, and ESC [ 2 K  *)
(* or ESC [ K; anything else, as a line feed, is not progress.  The state is   *)
(* [line, col, shown, widths, drawn]                                           *)
Pad(ln, c) == IF Len(ln) >= c THEN ln ELSE ln \o [n \in 1..(c - Len(ln)) |-> 32]
Note(t) == LET w == Look(t.line) IN
           IF w[1] THEN [t EXCEPT !.shown = Append(@, w[3].pct), !.widths = @ \cup {w[3].width}, !.drawn = @ /\ BarFits(w[3])]
           ELSE [t EXCEPT !.drawn = @ /\ w[2]]
RECURSIVE Feed(_, _)
Feed(t, b) ==
  IF b = <<>> THEN t
  ELSE IF Len(b) >= 4 /\ SubSeq(b, 1, 4) = <<27, 91, 50, 75>> THEN Feed([Note(t) EXCEPT !.line = <<>>], SubSeq(b, 5, Len(b)))
  ELSE IF Len(b) >= 3 /\ SubSeq(b, 1, 3) = <<27, 91, 75>> THEN Feed([(IF t.col = 0 THEN Note(t) ELSE t) EXCEPT !.line = SubSeq(@, 1, t.col)], SubSeq(b, 4, Len(b)))
  ELSE IF Head(b) = 13 THEN Feed([t EXCEPT !.col = 0], Tail(b))
  ELSE IF Head(b) < 32 THEN Feed([t EXCEPT !.drawn = FALSE], Tail(b))
  ELSE LET u == IF t.col = 0 /\ t.line # <<>> THEN Note(t) ELSE t   \* drawn over
           ln == Pad(u.line, u.col) IN
       Feed([u EXCEPT !.line = IF u.col < Len(ln) THEN [ln EXCEPT ![u.col + 1] = Head(b)] ELSE Append(ln, Head(b)), !.col = @ + 1], Tail(b))

(* bytes of the dump are read *)
Got(n) == /\ got' = got + n /\ chunk' = IF n > chunk THEN n ELSE chunk
          /\ UNCHANGED <<line, col, shown, widths, drawn, printing, before, ahead, behind>>

(* least and most are the sizes the dump may be said to have.  The length of the *)
(* longest item in it is how far ahead it may be, of what is being read; it is  *)
(* no further behind than that and a few reads                                 *)
Write(b, least, most, item) ==
  LET t == Feed([line |-> line, col |-> col, shown |-> shown, widths |-> widths, drawn |-> drawn], b) IN
  /\ line' = t.line /\ col' = t.col /\ shown' = t.shown /\ widths' = t.widths
  /\ drawn' = (t.drawn /\ ~printing)   \* nothing is written after printing has begun
  /\ LET p == ProgressLine(t.line)
         empty == \A n \in 1..Len(t.line) : t.line[n] = 32
         due == before - 4 * chunk - item IN
     /\ ahead' = (ahead \/ (p.ok /\ p.pct > Share(got + item, least) + 1))
     /\ behind' = (behind \/ (p.ok /\ due > 0 /\ p.pct < Share(due, most)))
     /\ before' = IF empty THEN got ELSE before
  /\ UNCHANGED <<printing, got, chunk>>
StartPrinting == printing' = TRUE /\ drawn' = (drawn /\ Blank) /\ UNCHANGED <<line, col, shown, widths, readVars>>

Bounded == \A n \in 1..Len(shown) : shown[n] \in 0..10000
NeverBack == \A n \in 1..(Len(shown) - 1) : shown[n] <= shown[n + 1]
FixedWidth == \A a, b \in widths : a = b
ErasedBeforePrinting == printing => Blank
OnlyProgress == drawn
NotAhead == ~ahead
NotBehind == ~behind
ProgressInv == NotAhead /\ NotBehind /\ Bounded /\ NeverBack /\ FixedWidth /\ ErasedBeforePrinting /\ OnlyProgress
=============================================================================
