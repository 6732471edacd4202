-------------------------------- MODULE Format --------------------------------
(* Rendering of descriptors, class names and sizes.                          *)
EXTENDS Hprof

SLASH == 47  DOT == 46  SEMI == 59  BRACKET == 91  LPAR == 40  RPAR == 41  CAPITAL_L == 76
Dotted(s) == Replace1(s, SLASH, DOT)
Dims(n) == Rep(T("[]"), n)

(* JVM descriptors (JVMS 4.3), by recursive descent from position i;         *)
(* result: [ok, text, next]                                                  *)
BadD == [ok |-> FALSE, text |-> <<>>, next |-> 0]
BaseType(c) == CASE c = 66 -> T("byte") [] c = 67 -> T("char") [] c = 68 -> T("double") [] c = 70 -> T("float")
                 [] c = 73 -> T("int") [] c = 74 -> T("long") [] c = 83 -> T("short") [] c = 90 -> T("boolean")
                 [] OTHER -> <<>>
RECURSIVE FieldDesc(_, _)
FieldDesc(s, i) ==
  IF i > Len(s) THEN BadD
  ELSE IF s[i] = BRACKET THEN
         LET d == FieldDesc(s, i + 1) IN
         IF d.ok THEN [d EXCEPT !.text = @ \o T("[]")] ELSE BadD
  ELSE IF s[i] = CAPITAL_L THEN
         LET E == {j \in i..Len(s) : s[j] = SEMI} IN
         \* a class name is not empty and has no [ (JVMS 4.2)
         IF E = {} \/ MinOf(E) = i + 1 \/ (\E j \in i..MinOf(E) : s[j] = BRACKET) THEN BadD
         ELSE [ok |-> TRUE, text |-> Dotted(SubSeq(s, i + 1, MinOf(E) - 1)), next |-> MinOf(E) + 1]
  ELSE IF BaseType(s[i]) # <<>> THEN [ok |-> TRUE, text |-> BaseType(s[i]), next |-> i + 1]
  ELSE BadD

(* argument types up to the closing parenthesis *)
RECURSIVE ArgDescs(_, _)
ArgDescs(s, i) ==
  IF i > Len(s) THEN [ok |-> FALSE, args |-> <<>>, next |-> 0]
  ELSE IF s[i] = RPAR THEN [ok |-> TRUE, args |-> <<>>, next |-> i + 1]
  ELSE LET d == FieldDesc(s, i) IN
       IF ~d.ok THEN [ok |-> FALSE, args |-> <<>>, next |-> 0]
       ELSE LET rest == ArgDescs(s, d.next) IN
            IF rest.ok THEN [rest EXCEPT !.args = <<d.text>> \o @] ELSE rest

(* a whole field descriptor: [ok, text] *)
FieldType(s) == LET d == FieldDesc(s, 1) IN [ok |-> d.ok /\ d.next = Len(s) + 1, text |-> d.text]
(* a whole method descriptor: [ok, args, ret] *)
MethodType(s) ==
  IF s = <<>> \/ s[1] # LPAR THEN [ok |-> FALSE, args |-> <<>>, ret |-> <<>>]
  ELSE LET a == ArgDescs(s, 2) IN
       IF ~a.ok THEN [ok |-> FALSE, args |-> <<>>, ret |-> <<>>]
       ELSE LET r == SubSeq(s, a.next, Len(s)) IN
            IF r = T("V") THEN [ok |-> TRUE, args |-> a.args, ret |-> T("void")]
            ELSE LET d == FieldType(r) IN [ok |-> d.ok, args |-> a.args, ret |-> d.text]
ArgText(args) == Join(args, T(", "))

(* name of a loaded class in Java source form: arrays are named by their     *)
(* descriptor, everything else by the name with slashes                      *)
TypeOfClass(name) ==
  IF name # <<>> /\ name[1] = BRACKET THEN LET d == FieldType(name) IN IF d.ok THEN d.text ELSE Dotted(name)
  ELSE Dotted(name)

(* sizes *)
Kilo == BN(1024)  Mega == BMul(Kilo, Kilo)  Giga == BMul(Mega, Kilo)
SizeText(b) ==
  IF BLt(b, Kilo) THEN BDec(b) \o T("B")
  ELSE LET k == BDivMod(b, 1024)[1] IN
       IF BLt(b, Mega) THEN BDec(k) \o T("K")
       ELSE LET m == BDivMod(k, 1024)[1] IN
            IF BLt(b, Giga) THEN BDec(m) \o T("M")
            ELSE BDec(BDivMod(m, 1024)[1]) \o T("G")

(* 100 * part / total rounded down, 0 if there is no total: the largest q    *)
(* with q * total <= 100 * part                                              *)
RECURSIVE PctFrom(_, _, _)
PctFrom(a, total, q) == IF q = 100 \/ BLt(a, BMulS(total, q + 1)) THEN q ELSE PctFrom(a, total, q + 1)
Percent(part, total) == IF total = <<>> THEN 0 ELSE PctFrom(BMulS(part, 100), total, 0)

-----------------------------------------------------------------------------
(* a span of milliseconds as h, m, s: 1h2m3.45s, 2m0s, 1.5s, 150ms, 0s *)
TrimZeros(s) == LET K == {i \in 1..Len(s) : s[i] # 48} IN
                IF K = {} THEN <<>> ELSE SubSeq(s, 1, CHOOSE i \in K : \A j \in K : j <= i)
Fraction(ms) == IF ms = 0 THEN <<>> ELSE T(".") \o TrimZeros(DigitsN(ms, 3))
SpanText(x) ==
  LET sec == BDivMod(x.mag, 1000)
      min == BDivMod(sec[1], 60)
      hour == BDivMod(min[1], 60)
      sText == DigitsOf(min[2]) \o Fraction(sec[2]) \o T("s")
      mag == IF x.mag = <<>> THEN T("0s")
             ELSE IF sec[1] = <<>> THEN DigitsOf(sec[2]) \o T("ms")
             ELSE IF min[1] = <<>> THEN sText
             ELSE IF hour[1] = <<>> THEN DigitsOf(hour[2]) \o T("m") \o sText
             ELSE BDec(hour[1]) \o T("h") \o DigitsOf(hour[2]) \o T("m") \o sText
  IN (IF x.neg THEN T("-") ELSE <<>>) \o mag
=============================================================================
