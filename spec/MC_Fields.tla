------------------------------ MODULE MC_Fields ------------------------------
(* Classes that are loaded one after another, each an heir of one that is     *)
(* there, with fields of names that other classes may have as well; objects   *)
(* that are made of them, and their fields written, until a dump is taken.    *)
(* A field read by its name is the one of the nearest ancestor that has one,  *)
(* with the value written to it, whatever the other fields are.               *)
EXTENDS Jvm

CONSTANTS
  MaxClasses, Lists, \* lists of fields a class may have
  MaxPuts,
  Gone               \* may a class be missing from the dump?

VARIABLES
  loaded,   \* sequence of [super, fields]; super is its number, 0 for java.lang.Object
  heap,     \* sequence of objects: [cls, vals]; vals: (number of class, field) -> value, a number
  puts,
  gone      \* number of the class that is not in the dump
vmVars == <<loaded, heap, puts, gone>>
View == <<vmVars, mode, phase, pos>>

F(n, ty) == [name |-> T(n), ty |-> ty]
FewLists == {<<>>, <<F("a", TByte)>>, <<F("b", TLong)>>, <<F("a", TObject), F("b", TShort)>>}
ManyLists == FewLists \cup {<<F("b", TObject), F("a", TInt)>>, <<F("b", TByte), F("c", TDouble), F("a", TByte)>>}
FieldNames == {T("a"), T("b"), T("c")}
ClassNames == <<T("p/A"), T("p/B"), T("p/C")>>
MyPool == <<T("java/lang/Object")>> \o ClassNames \o <<T("a"), T("b"), T("c")>>

RECURSIVE Up(_)  \* the class and its ancestors
Up(c) == IF c = 0 THEN <<>> ELSE <<c>> \o Up(loaded[c].super)
Slots(c) == LET up == Up(c) IN {<<up[i], f>> : i \in 1..Len(up), f \in 1..3} \cap {<<d, f>> \in (1..MaxClasses) \X (1..3) : d <= Len(loaded) /\ f <= Len(loaded[d].fields)}

Load == /\ Len(loaded) < MaxClasses /\ heap = <<>>
        /\ \E s \in 0..Len(loaded), fs \in Lists : loaded' = Append(loaded, [super |-> s, fields |-> fs]) /\ UNCHANGED <<heap, puts, gone>>
(* one object of each class, so that they can be told apart by it *)
New == /\ Len(loaded) = MaxClasses /\ Len(heap) < Len(loaded)
       /\ LET c == Len(heap) + 1 IN heap' = Append(heap, [cls |-> c, vals |-> [s \in Slots(c) |-> 10 * c + 3 * s[1] + s[2]]])
       /\ UNCHANGED <<loaded, puts, gone>>
(* a field is assigned: to the slot of it the class that is named declares *)
Put == /\ puts < MaxPuts /\ Len(heap) = MaxClasses
       /\ \E o \in 1..Len(heap) : \E s \in DOMAIN heap[o].vals : \E v \in {0, 255} :
            heap' = [heap EXCEPT ![o].vals[s] = v]
       /\ puts' = puts + 1 /\ UNCHANGED <<loaded, gone>>

Ready == Len(heap) = MaxClasses
Written(ty, v) == [i \in 1..Width(ty, IdSize) |-> v]
Data(o) == LET up == Up(o.cls) IN
  Cat([i \in 1..Len(up) |-> LET fs == loaded[up[i]].fields IN Cat([f \in 1..Len(fs) |-> Written(fs[f].ty, o.vals[<<up[i], f>>])])])
ClassOf(c) == [id |-> 110 + c, super |-> IF loaded[c].super = 0 THEN 100 ELSE 110 + loaded[c].super, name |-> ClassNames[c], size |-> 8, statics |-> <<>>, fields |-> loaded[c].fields]
AllClasses == <<ObjectClass>> \o [c \in 1..Len(loaded) |-> ClassOf(c)]
Dumped == SelectSeq(AllClasses, LAMBDA c : c.id # 110 + gone)
Tops == NameRecs \o Each(AllClasses, LoadRec)
Subs == Each(Dumped, ClassRec) \o Cat([o \in 1..Len(heap) |-> InstRec(200 + o, 110 + heap[o].cls, Data(heap[o]))])

Init == loaded = <<>> /\ heap = <<>> /\ puts = 0 /\ gone \in (IF Gone THEN 0..MaxClasses ELSE {0}) /\ StartVm
Next == ((Load \/ New \/ Put) /\ Running) \/ (Ready /\ TakeDump(DumpOf(U8(5), Tops, Subs)) /\ UNCHANGED vmVars) \/ (Reading /\ UNCHANGED vmVars)
Spec == Init /\ [][Next]_<<vmVars, mode, more, idxVars>>

-----------------------------------------------------------------------------
(* the slot a name stands for: the nearest class above that has the field *)
Found(c, n) == LET up == Up(c) IN
  {i \in 1..Len(up) : \E f \in 1..Len(loaded[up[i]].fields) : loaded[up[i]].fields[f].name = n}
Slot(c, n) == LET d == Up(c)[MinOf(Found(c, n))] IN <<d, CHOOSE f \in 1..Len(loaded[d].fields) : loaded[d].fields[f].name = n>>
Want(o, n) ==
  IF Found(o.cls, n) = {} \/ (gone # 0 /\ gone \in {Up(o.cls)[i] : i \in 1..Len(Up(o.cls))}) THEN Missing
  ELSE LET s == Slot(o.cls, n) ty == loaded[s[1]].fields[s[2]].ty IN Ok([ty |-> ty, val |-> Canon(ty, Written(ty, o.vals[s])), cls |-> Id(110 + s[1])])
ReadAsWritten == IsRead => \A o \in 1..Len(heap), n \in FieldNames : Field(ById(insts, Id(200 + o)), n) = Want(heap[o], n)
ByTypeToo == IsRead => \A o \in 1..Len(heap), n \in FieldNames, ty \in {TByte, TObject} :
  LET w == Want(heap[o], n) IN FieldAt(Id(200 + o), n, ty) = IF w.ok /\ w.v.ty = ty THEN Ok(w.v.val) ELSE Missing
(* the values of an object are all of its bytes *)
Covered == IsRead /\ gone = 0 => \A o \in 1..Len(heap) :
  LET x == ById(insts, Id(200 + o)) fs == FieldsOf(Chain(x.cls).v) IN IF fs = <<>> THEN x.n = 0 ELSE OffsetOf(fs, Len(fs)) + Width(fs[Len(fs)].ty, idn) = x.n
=============================================================================
