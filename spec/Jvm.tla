--------------------------------- MODULE Jvm ---------------------------------
(* The dump HotSpot writes of a Java VM: classes, objects, stacks and roots  *)
(* put into records.  The models that extend this module run a small VM, dump *)
(* it at some point, let Indexer read the dump, and compare what Reports says *)
(* about it with the state of the VM.                                        *)
EXTENDS Reports, Json

CONSTANTS
  IdSize,  \* of an identifier
  Pool     \* the names in the dump, a sequence of texts

U2(k) == <<k \div 256, k % 256>>
U4(k) == <<0, 0>> \o U2(k)
U8(k) == Zeros(4) \o U4(k)
Id(k) == Zeros(IdSize - 2) \o U2(k)
NameId(t) == Id(1000 + (CHOOSE i \in 1..Len(Pool) : Pool[i] = t))
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Each(s, f(_)) == Cat([i \in 1..Len(s) |-> f(s[i])])

Top(tag, body) == <<tag>> \o U4(0) \o U4(Len(body)) \o body
NameRecs == Cat([i \in 1..Len(Pool) |-> Top(UTF8, Id(1000 + i) \o Pool[i])])
(* a class: [id, super, name, size, statics, fields]; its serial number is its id *)
LoadRec(c) == Top(LOADCLASS, U4(c.id) \o Id(c.id) \o U4(0) \o NameId(c.name))
ClassRec(c) ==
  <<CLASSDUMP>> \o Id(c.id) \o U4(0) \o Id(c.super) \o Cat([i \in 1..5 |-> Id(0)]) \o U4(c.size) \o U2(0)
  \o U2(Len(c.statics)) \o Each(c.statics, LAMBDA s : NameId(s.name) \o <<s.ty>> \o s.val)
  \o U2(Len(c.fields)) \o Each(c.fields, LAMBDA f : NameId(f.name) \o <<f.ty>>)
FrameRec(id, method, sig, source, cls, line) == Top(FRAME, Id(id) \o NameId(method) \o NameId(sig) \o source \o U4(cls) \o line)
TraceRec(t, ids) == Top(TRACE, U4(t) \o U4(t) \o U4(Len(ids)) \o Each(ids, Id))

InstRec(id, cls, data) == <<INSTDUMP>> \o Id(id) \o U4(0) \o Id(cls) \o U4(Len(data)) \o data
OArrRec(id, cls, elems) == <<OARRDUMP>> \o Id(id) \o U4(0) \o U4(Len(elems)) \o Id(cls) \o Each(elems, Id)
PArrRec(id, ty, k, data) == <<PARRDUMP>> \o Id(id) \o U4(0) \o U4(k) \o <<ty>> \o data
RootRec(kind, obj, rest) == <<kind>> \o Id(obj) \o rest

DumpOf(ms, tops, subs) ==
  Magic \o U4(IdSize) \o ms \o tops \o <<SEGMENT>> \o U4(0) \o U4(0) \o subs \o <<ENDTAG>> \o U4(0) \o U4(0)

-----------------------------------------------------------------------------
(* what there is in any VM *)
ObjectClass == [id |-> 100, super |-> 0, name |-> T("java/lang/Object"), size |-> 16, statics |-> <<>>, fields |-> <<>>]
StringClass == [id |-> 101, super |-> 100, name |-> T("java/lang/String"), size |-> 24, statics |-> <<>>,
                fields |-> <<[name |-> T("coder"), ty |-> TByte], [name |-> T("value"), ty |-> TObject]>>]
StringFields == <<T("coder"), T("value")>>
(* a string is two objects: the text of an array of bytes, and the string    *)
StringRec(id, arr) == InstRec(id, 101, <<0>> \o Id(arr))
TextRec(id, text) == PArrRec(id, TByte, Len(text), text)

-----------------------------------------------------------------------------
(* running and dumping *)
VARIABLE mode   \* "running", "dumped"
StartVm == mode = "running" /\ StartIndexing(<<>>) /\ more = <<>>
Running == mode = "running" /\ UNCHANGED <<mode, more, idxVars>>
TakeDump(bytes) == mode = "running" /\ mode' = "dumped" /\ UNCHANGED more /\ RestartIndexing(bytes)
Reading == mode = "dumped" /\ IndexStep /\ UNCHANGED <<mode, more>>
IsRead == mode = "dumped" /\ Finished
Wellformed == IsRead => phase = "indexed" /\ pos = Len(file)
Printed == IsRead => PrintT(<<"DUMP", ToJson(file)>>)
=============================================================================
