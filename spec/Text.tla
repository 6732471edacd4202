-------------------------------- MODULE Text --------------------------------
(* Text is a sequence of bytes (UTF-8 where it is shown), so that nothing is *)
(* lost between the dump, the specification and the program's output.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

(* printable ASCII; SANY does not like a percent sign in a string *)
Printable == " !\"#$&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
PERCENT == 37
CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
             LET i == CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c
             IN IF i <= 5 THEN 31 + i ELSE 32 + i]
(* bytes of an ASCII string literal *)
T(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

Replace1(s, a, b) == [i \in 1..Len(s) |-> IF s[i] = a THEN b ELSE s[i]]

(* lexicographic order of byte sequences *)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
LexLt(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      D == {i \in 1..n : a[i] # b[i]}
  IN IF D = {} THEN Len(a) < Len(b) ELSE LET m == MinOf(D) IN a[m] < b[m]

IsSpaceByte(b) == b \in {32, 9, 10, 11, 12, 13}
(* first and last position from i to j that is no space, 0 if there is none; *)
(* halves rather than heads and tails: texts can be long                     *)
RECURSIVE FirstInk(_, _, _)
FirstInk(s, i, j) == IF i > j THEN 0
                     ELSE IF ~IsSpaceByte(s[i]) THEN i
                     ELSE IF i = j THEN 0
                     ELSE LET m == (i + j) \div 2 f == FirstInk(s, i, m) IN IF f # 0 THEN f ELSE FirstInk(s, m + 1, j)
RECURSIVE LastInk(_, _, _)
LastInk(s, i, j) == IF i > j THEN 0
                    ELSE IF ~IsSpaceByte(s[j]) THEN j
                    ELSE IF i = j THEN 0
                    ELSE LET m == (i + j) \div 2 f == LastInk(s, m + 1, j) IN IF f # 0 THEN f ELSE LastInk(s, i, m)
Trim(s) == LET f == FirstInk(s, 1, Len(s)) IN IF f = 0 THEN <<>> ELSE SubSeq(s, f, LastInk(s, 1, Len(s)))

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>>
                 ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE ss[1] \o sep \o Join(Tail(ss), sep)

RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN <<>> ELSE s \o Rep(s, n - 1)

(* UTF-8 encoding of a code point; surrogates that are not in a pair are     *)
(* encoded as the replacement character                                      *)
Utf8Of(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c >= 55296 /\ c < 57344 THEN <<239, 191, 189>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

(* halves rather than heads and tails: strings can be long *)
RECURSIVE Utf8In(_, _, _)
Utf8In(cps, i, j) == IF i > j THEN <<>>
                     ELSE IF i = j THEN Utf8Of(cps[i])
                     ELSE LET m == (i + j) \div 2 IN Utf8In(cps, i, m) \o Utf8In(cps, m + 1, j)
Utf8(cps) == Utf8In(cps, 1, Len(cps))

(* code points of UTF-16 code units: a high surrogate and the low one right  *)
(* after it are one code point                                               *)
HighLow(u, i) == u[i] >= 55296 /\ u[i] < 56320 /\ u[i + 1] >= 56320 /\ u[i + 1] < 57344
RECURSIVE Utf16In(_, _, _)
Utf16In(u, i, j) == IF i > j THEN <<>>
                    ELSE IF i = j THEN <<u[i]>>
                    ELSE IF i + 1 = j /\ HighLow(u, i) THEN <<65536 + (u[i] - 55296) * 1024 + (u[j] - 56320)>>
                    ELSE LET h == (i + j) \div 2
                             m == IF HighLow(u, h) THEN h - 1 ELSE h \* never between the two
                         IN IF m < i THEN Utf16In(u, i, i + 1) \o Utf16In(u, i + 2, j)
                            ELSE Utf16In(u, i, m) \o Utf16In(u, m + 1, j)
Utf16Cps(u) == Utf16In(u, 1, Len(u))
=============================================================================
