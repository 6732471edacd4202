-------------------------------- MODULE Hprof --------------------------------
(* The HPROF 1.0.2 binary format as HotSpot writes it: how one record is     *)
(* decoded from a sequence of bytes.  Positions are offsets from the start   *)
(* of the file (the first byte is at offset 0).  Identifiers, serial numbers *)
(* and lengths stay byte sequences (big-endian), so nothing depends on the   *)
(* width of TLC's integers.                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, BigNat, Text

Magic == T("JAVA PROFILE 1.0.2") \o <<0>>

Huge == 1073741824                         \* every larger length, see Len4

Avail(f, p, n) == n < Huge /\ p + n <= Len(f)
Bytes(f, p, n) == SubSeq(f, p + 1, p + n)
Byte(f, p) == f[p + 1]
Int2(b) == 256 * b[1] + b[2]
(* value of a u4 length; lengths of 2^30 and above are more than any file    *)
(* that can be written down here has left                                    *)
Len4(b) == IF b[1] >= 64 THEN Huge ELSE ((b[1] * 256 + b[2]) * 256 + b[3]) * 256 + b[4]
(* n * w, saturated *)
MulSat(n, w) == IF n >= Huge \div 16 THEN Huge ELSE n * w

Zeros(n) == [i \in 1..n |-> 0]
IsNull(id) == \A i \in 1..Len(id) : id[i] = 0
IsIdSize(n) == n = <<0, 0, 0, 4>> \/ n = <<0, 0, 0, 8>>

-----------------------------------------------------------------------------
(* Java types of fields and elements *)
TObject == 2   TBoolean == 4   TChar == 5    TFloat == 6   TDouble == 7
TByte == 8     TShort == 9     TInt == 10    TLong == 11
JavaTypes == {2, 4, 5, 6, 7, 8, 9, 10, 11}
PrimTypes == JavaTypes \ {TObject}
Width(ty, idn) ==
  CASE ty = TObject -> idn
    [] ty \in {TBoolean, TByte} -> 1
    [] ty \in {TChar, TShort} -> 2
    [] ty \in {TFloat, TInt} -> 4
    [] ty \in {TDouble, TLong} -> 8
(* name of a primitive type in Java source and in descriptors *)
TypeName(ty) ==
  CASE ty = TBoolean -> T("boolean") [] ty = TChar -> T("char") [] ty = TFloat -> T("float")
    [] ty = TDouble -> T("double") [] ty = TByte -> T("byte") [] ty = TShort -> T("short")
    [] ty = TInt -> T("int") [] ty = TLong -> T("long")
(* booleans are true unless zero, not-a-number is one value, everything else *)
(* is its bytes                                                              *)
FloatNaN == <<127, 192, 0, 0>>
DoubleNaN == <<127, 248, 0, 0, 0, 0, 0, 0>>
SomeBit(b, i) == \E j \in i..Len(b) : b[j] # 0
IsFloatNaN(b) == (b[1] % 128) = 127 /\ b[2] >= 128 /\ (b[2] > 128 \/ SomeBit(b, 3))
IsDoubleNaN(b) == (b[1] % 128) = 127 /\ b[2] >= 240 /\ (b[2] > 240 \/ SomeBit(b, 3))
Canon(ty, b) == CASE ty = TBoolean -> <<IF b[1] = 0 THEN 0 ELSE 1>>
                  [] ty = TFloat /\ IsFloatNaN(b) -> FloatNaN
                  [] ty = TDouble /\ IsDoubleNaN(b) -> DoubleNaN
                  [] OTHER -> b

-----------------------------------------------------------------------------
(* Tags *)
UTF8 == 1  LOADCLASS == 2  FRAME == 4  TRACE == 5  SEGMENT == 28  ENDTAG == 44
SubRoots == {1, 2, 3, 4, 5, 6, 7, 8, 255}
CLASSDUMP == 32  INSTDUMP == 33  OARRDUMP == 34  PARRDUMP == 35

(* Decoding a record body at p gives Truncated, Malformed or                 *)
(* [st |-> "ok", len |-> bytes of the body, rec |-> its content]             *)
Truncated == [st |-> "truncated"]
Malformed == [st |-> "malformed"]
Rec(len, rec) == [st |-> "ok", len |-> len, rec |-> rec]
Fixed(f, p, n, rec(_)) == IF Avail(f, p, n) THEN Rec(n, rec(p)) ELSE Truncated

(* top-level bodies; `decl` is the declared length of the body *)
DUtf8(f, p, idn, decl) ==
  IF decl < idn THEN (IF Avail(f, p, idn) THEN Malformed ELSE Truncated)
  ELSE IF ~Avail(f, p, decl) THEN Truncated
  ELSE Rec(decl, [id |-> Bytes(f, p, idn), text |-> Bytes(f, p + idn, decl - idn)])

Declared(d, decl) == IF d.st = "ok" /\ d.len # decl THEN Malformed ELSE d

DLoad(f, p, n, decl) ==
  Declared(Fixed(f, p, 8 + 2 * n, LAMBDA q :
    [serial |-> Bytes(f, q, 4), cls |-> Bytes(f, q + 4, n),
     trace |-> Bytes(f, q + 4 + n, 4), name |-> Bytes(f, q + 8 + n, n)]), decl)

DFrame(f, p, n, decl) ==
  Declared(Fixed(f, p, 8 + 4 * n, LAMBDA q :
    [id |-> Bytes(f, q, n), method |-> Bytes(f, q + n, n), sig |-> Bytes(f, q + 2*n, n),
     source |-> Bytes(f, q + 3*n, n), cls |-> Bytes(f, q + 4*n, 4), line |-> Bytes(f, q + 4*n + 4, 4)]), decl)

DTrace(f, p, n, decl) ==
  IF ~Avail(f, p, 12) THEN Truncated
  ELSE LET k == Len4(Bytes(f, p + 8, 4)) IN
       IF ~Avail(f, p + 12, MulSat(k, n)) THEN Truncated
       ELSE Declared(Rec(12 + k * n,
              [serial |-> Bytes(f, p, 4), thread |-> Bytes(f, p + 4, 4),
               frames |-> [i \in 1..k |-> Bytes(f, p + 12 + (i - 1) * n, n)]]), decl)

(* sub-records of a heap dump segment *)
DRoot(f, p, n, kind) ==
  CASE kind = 1 -> \* JNI global
         Fixed(f, p, 2 * n, LAMBDA q : [kind |-> kind, obj |-> Bytes(f, q, n), a |-> Bytes(f, q + n, n), b |-> <<>>])
    [] kind \in {2, 3, 8} -> \* JNI local, Java frame: thread, frame number; thread object: thread, trace
         Fixed(f, p, n + 8, LAMBDA q : [kind |-> kind, obj |-> Bytes(f, q, n), a |-> Bytes(f, q + n, 4), b |-> Bytes(f, q + n + 4, 4)])
    [] kind \in {4, 6} -> \* native stack, thread block: thread
         Fixed(f, p, n + 4, LAMBDA q : [kind |-> kind, obj |-> Bytes(f, q, n), a |-> <<>>, b |-> <<>>])
    [] kind \in {5, 7, 255} -> \* sticky class, monitor used, unknown
         Fixed(f, p, n, LAMBDA q : [kind |-> kind, obj |-> Bytes(f, q, n), a |-> <<>>, b |-> <<>>])

(* k entries of a header of h bytes whose last byte is the type, and a value *)
(* of that type; entries are [key, ty, val]                                  *)
RECURSIVE DEntries(_, _, _, _, _, _)
DEntries(f, p, n, h, k, acc) ==
  IF k = 0 THEN Rec(0, acc)
  ELSE IF ~Avail(f, p, h) THEN Truncated
  ELSE LET ty == Byte(f, p + h - 1) IN
       IF ty \notin JavaTypes THEN Malformed
       ELSE IF ~Avail(f, p + h, Width(ty, n)) THEN Truncated
       ELSE LET w == Width(ty, n)
                rest == DEntries(f, p + h + w, n, h, k - 1,
                          Append(acc, [key |-> Bytes(f, p, h - 1), ty |-> ty, val |-> Canon(ty, Bytes(f, p + h, w))]))
            IN IF rest.st = "ok" THEN Rec(h + w + rest.len, rest.rec) ELSE rest

RECURSIVE DFields(_, _, _, _, _)
DFields(f, p, n, k, acc) ==
  IF k = 0 THEN Rec(0, acc)
  ELSE IF ~Avail(f, p, n + 1) THEN Truncated
  ELSE LET ty == Byte(f, p + n) IN
       IF ty \notin JavaTypes THEN Malformed
       ELSE LET rest == DFields(f, p + n + 1, n, k - 1, Append(acc, [name |-> Bytes(f, p, n), ty |-> ty]))
            IN IF rest.st = "ok" THEN Rec(n + 1 + rest.len, rest.rec) ELSE rest

DClass(f, p, n) ==
  LET h == 7 * n + 8 \* up to the instance size
  IN IF ~Avail(f, p, h + 2) THEN Truncated
     ELSE LET cp == DEntries(f, p + h + 2, n, 3, Int2(Bytes(f, p + h, 2)), <<>>) IN
     IF cp.st # "ok" THEN cp
     ELSE LET p1 == p + h + 2 + cp.len IN
     IF ~Avail(f, p1, 2) THEN Truncated
     ELSE LET sf == DEntries(f, p1 + 2, n, n + 1, Int2(Bytes(f, p1, 2)), <<>>) IN
     IF sf.st # "ok" THEN sf
     ELSE LET p2 == p1 + 2 + sf.len IN
     IF ~Avail(f, p2, 2) THEN Truncated
     ELSE LET fs == DFields(f, p2 + 2, n, Int2(Bytes(f, p2, 2)), <<>>) IN
     IF fs.st # "ok" THEN fs
     ELSE Rec(p2 + 2 + fs.len - p,
       [id |-> Bytes(f, p, n), trace |-> Bytes(f, p + n, 4), super |-> Bytes(f, p + n + 4, n),
        loader |-> Bytes(f, p + 2*n + 4, n), signers |-> Bytes(f, p + 3*n + 4, n),
        domain |-> Bytes(f, p + 4*n + 4, n), size |-> Bytes(f, p + 7*n + 4, 4),
        pool |-> cp.rec, statics |-> sf.rec, fields |-> fs.rec])

(* objects: header, and where the payload starts and how long it is *)
DInst(f, p, n) ==
  IF ~Avail(f, p, 2 * n + 8) THEN Truncated
  ELSE LET k == Len4(Bytes(f, p + 2*n + 4, 4)) IN
       IF ~Avail(f, p + 2*n + 8, k) THEN Truncated
       ELSE Rec(2*n + 8 + k, [id |-> Bytes(f, p, n), trace |-> Bytes(f, p + n, 4), cls |-> Bytes(f, p + n + 4, n),
                              n |-> k, off |-> p, data |-> p + 2*n + 8])
DOArr(f, p, n) ==
  IF ~Avail(f, p, 2 * n + 8) THEN Truncated
  ELSE LET k == Len4(Bytes(f, p + n + 4, 4)) IN
       IF ~Avail(f, p + 2*n + 8, MulSat(k, n)) THEN Truncated
       ELSE Rec(2*n + 8 + k * n, [id |-> Bytes(f, p, n), trace |-> Bytes(f, p + n, 4), cls |-> Bytes(f, p + n + 8, n),
                                  n |-> k, off |-> p, data |-> p + 2*n + 8])
DPArr(f, p, n) ==
  IF ~Avail(f, p, n + 9) THEN Truncated
  ELSE LET k == Len4(Bytes(f, p + n + 4, 4))
           ty == Byte(f, p + n + 8) IN
       IF ty \notin PrimTypes THEN Malformed
       ELSE IF ~Avail(f, p + n + 9, MulSat(k, Width(ty, n))) THEN Truncated
       ELSE Rec(n + 9 + k * Width(ty, n), [id |-> Bytes(f, p, n), trace |-> Bytes(f, p + n, 4), ty |-> ty,
                                           n |-> k, off |-> p, data |-> p + n + 9])
=============================================================================
