------------------------------ MODULE JavaHeap ------------------------------
(* The Java objects in an indexed dump: classes, fields, strings, arrays.    *)
EXTENDS Indexer

Missing == [ok |-> FALSE]
Ok(v) == [ok |-> TRUE, v |-> v]

(* the objects of one kind by id; the ids of a well-formed dump are unique   *)
(* they are in the order of their ids (KeysSorted): the first one from id on  *)
RECURSIVE From(_, _, _, _)
From(seq, id, a, b) == \* seq[i].id < id for i < a, not so for i >= b
  IF a = b THEN a
  ELSE LET m == (a + b) \div 2 IN
       IF LexLt(seq[m].id, id) THEN From(seq, id, m + 1, b) ELSE From(seq, id, a, m)
PlaceOf(seq, id) == From(seq, id, 1, Len(seq) + 1)
IsIn(seq, id) == LET i == PlaceOf(seq, id) IN i <= Len(seq) /\ seq[i].id = id
ById(seq, id) == seq[PlaceOf(seq, id)]
Payload(o, w) == Bytes(file, o.data, o.n * w)

FirstLoad(P(_)) == LET S == {i \in 1..Len(loads) : P(loads[i])} IN
                   IF S = {} THEN Missing ELSE Ok(loads[MinOf(S)])
LoadOf(cls) == FirstLoad(LAMBDA r : r.cls = cls)
LoadOfSerial(s) == FirstLoad(LAMBDA r : r.serial = s)
NameOf(id) == IF id \in DOMAIN names THEN Ok(names[id]) ELSE Missing
ClassName(cls) == LET r == LoadOf(cls) IN IF r.ok THEN NameOf(r.v.name) ELSE Missing

-----------------------------------------------------------------------------
(* class ids from the class itself up to the root, <<>> on a broken chain *)
RECURSIVE ChainFrom(_, _)
ChainFrom(cls, seen) ==
  IF cls \notin DOMAIN classes \/ cls \in seen THEN Missing
  ELSE IF IsNull(classes[cls].super) THEN Ok(<<cls>>)
  ELSE LET up == ChainFrom(classes[cls].super, seen \cup {cls})
       IN IF up.ok THEN Ok(<<cls>> \o up.v) ELSE Missing
Chain(cls) == ChainFrom(cls, {})

(* all fields of an object of the class in the order of their values *)
RECURSIVE FieldsOf(_)
FieldsOf(chain) ==
  IF chain = <<>> THEN <<>>
  ELSE [i \in 1..Len(classes[Head(chain)].fields) |->
          [cls |-> Head(chain), name |-> classes[Head(chain)].fields[i].name, ty |-> classes[Head(chain)].fields[i].ty]]
       \o FieldsOf(Tail(chain))
RECURSIVE OffsetOf(_, _)
OffsetOf(fs, i) == IF i = 1 THEN 0 ELSE OffsetOf(fs, i - 1) + Width(fs[i - 1].ty, idn)

(* the field `name` (a text) of instance o: the first one in that order is   *)
(* the one of the most derived class                                         *)
Field(o, name) ==
  LET c == Chain(o.cls) IN
  IF ~c.ok THEN Missing
  ELSE LET fs == FieldsOf(c.v)
           S == {i \in 1..Len(fs) : NameOf(fs[i].name) = Ok(name)} IN
       IF S = {} THEN Missing
       ELSE LET i == MinOf(S)
                w == Width(fs[i].ty, idn)
                off == OffsetOf(fs, i) IN
            IF off + w > o.n THEN Missing
            ELSE Ok([ty |-> fs[i].ty, val |-> Canon(fs[i].ty, Bytes(file, o.data + off, w)), cls |-> fs[i].cls])
FieldOfType(o, name, ty) == LET x == Field(o, name) IN IF x.ok /\ x.v.ty = ty THEN Ok(x.v.val) ELSE Missing
(* the value of an instance field, all the way from the object's id *)
FieldAt(id, name, ty) == IF IsIn(insts, id) THEN FieldOfType(ById(insts, id), name, ty) ELSE Missing

StaticOf(cls, name, ty) ==
  LET s == classes[cls].statics
      S == {i \in 1..Len(s) : NameOf(s[i].key) = Ok(name)} IN
  IF cls \notin DOMAIN classes \/ S = {} THEN Missing
  ELSE IF s[MinOf(S)].ty = ty THEN Ok(s[MinOf(S)].val) ELSE Missing

ClassNamed(name) ==
  LET r == FirstLoad(LAMBDA x : NameOf(x.name) = Ok(name)) IN
  IF r.ok /\ r.v.cls \in DOMAIN classes THEN Ok(r.v.cls) ELSE Missing

(* elements of an object array *)
Elements(id) ==
  IF ~IsIn(oarrs, id) THEN Missing
  ELSE LET a == ById(oarrs, id) IN Ok([i \in 1..a.n |-> Bytes(file, a.data + (i - 1) * idn, idn)])

-----------------------------------------------------------------------------
(* Java strings: `value` is an array of bytes, one Latin-1 character each,   *)
(* or two bytes (low first) of a UTF-16 code unit each if `coder` is 1       *)
Latin1Text(bytes) == Utf8(bytes)
Utf16Text(bytes) == Utf8(Utf16Cps(TLCEval([i \in 1..(Len(bytes) \div 2) |-> bytes[2*i - 1] + 256 * bytes[2*i]])))
StringAt(id) ==
  IF ~IsIn(insts, id) \/ ClassName(ById(insts, id).cls) # Ok(T("java/lang/String")) THEN Missing
  ELSE LET o == ById(insts, id)
           v == FieldOfType(o, T("value"), TObject)
           coder == FieldOfType(o, T("coder"), TByte) IN
       IF ~v.ok \/ ~IsIn(parrs, v.v) THEN Missing
       ELSE LET a == ById(parrs, v.v) IN
            IF a.ty # TByte THEN Missing
            ELSE LET b == Payload(a, 1) IN
                 Ok(IF coder.ok /\ coder.v = <<1>> THEN Utf16Text(b) ELSE Latin1Text(b))
=============================================================================
