------------------------------- MODULE MC_Rows -------------------------------
(* Objects are allocated until a dump is taken.  The report has one row per   *)
(* class and type there are objects of, with their number and size, in an     *)
(* order that is total, with percentages of totals that are the sums.         *)
EXTENDS Jvm

CONSTANTS MaxObjects, Sorts

VARIABLE made   \* what was allocated: sort -> number
vmVars == made
View == <<vmVars, mode, phase, pos>>

(* [kind, class or element type, elements, row, bytes in the report].  Two    *)
(* classes have the same name, of two loaders; an empty class has no size.   *)
Sort(s) ==
  CASE s = 1 -> [kind |-> "inst", of |-> 103, n |-> 0, row |-> <<1, T("p.A")>>, size |-> 8]
    [] s = 2 -> [kind |-> "inst", of |-> 104, n |-> 0, row |-> <<2, T("B")>>, size |-> 24]
    [] s = 3 -> [kind |-> "inst", of |-> 105, n |-> 0, row |-> <<3, T("p.A")>>, size |-> 8]
    [] s = 4 -> [kind |-> "oarr", of |-> 106, n |-> 2, row |-> <<4, T("p.A[]")>>, size |-> 2 * IdSize]
    [] s = 5 -> [kind |-> "oarr", of |-> 106, n |-> 0, row |-> <<4, T("p.A[]")>>, size |-> 0]
    [] s = 6 -> [kind |-> "oarr", of |-> 107, n |-> 1, row |-> <<5, T("int[][]")>>, size |-> IdSize]
    [] s = 7 -> [kind |-> "parr", of |-> TByte, n |-> 3, row |-> <<6, T("byte[]")>>, size |-> 3]
    [] s = 8 -> [kind |-> "parr", of |-> TLong, n |-> 1, row |-> <<7, T("long[]")>>, size |-> 8]
    [] s = 9 -> [kind |-> "parr", of |-> TLong, n |-> 0, row |-> <<7, T("long[]")>>, size |-> 0]
    [] s = 10 -> [kind |-> "inst", of |-> 108, n |-> 0, row |-> <<8, T("Z")>>, size |-> 0]
    [] s = 11 -> [kind |-> "parr", of |-> TByte, n |-> 200, row |-> <<6, T("byte[]")>>, size |-> 200]

PlainClass(i, n, sz) == [id |-> i, super |-> 100, name |-> n, size |-> sz, statics |-> <<>>, fields |-> <<>>]
AllClasses == <<ObjectClass, PlainClass(103, T("p/A"), 8), PlainClass(104, T("B"), 24), PlainClass(105, T("p/A"), 8),
                PlainClass(106, T("[Lp/A;"), 0), PlainClass(107, T("[[I"), 0), PlainClass(108, T("Z"), 0)>>
MyPool == <<T("java/lang/Object"), T("p/A"), T("B"), T("[Lp/A;"), T("[[I"), T("Z")>>

RECURSIVE SumOf(_, _)
SumOf(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOf(S \ {x}, f)
All == SumOf(Sorts, made)
New == All < MaxObjects /\ \E s \in Sorts : made' = [made EXCEPT ![s] = @ + 1]

One(s, i) == LET x == Sort(s) id == 200 + 20 * s + i IN
  CASE x.kind = "inst" -> InstRec(id, x.of, Zeros(x.size))
    [] x.kind = "oarr" -> OArrRec(id, x.of, Zeros(x.n))
    [] x.kind = "parr" -> PArrRec(id, x.of, x.n, Zeros(x.n * Width(x.of, IdSize)))
Objects == Cat([s \in 1..11 |-> IF s \in Sorts THEN Cat([i \in 1..made[s] |-> One(s, i)]) ELSE <<>>])
Init == made = [s \in Sorts |-> 0] /\ StartVm
Next == (New /\ Running) \/ (TakeDump(DumpOf(U8(5), NameRecs \o Each(AllClasses, LoadRec), Each(AllClasses, ClassRec) \o Objects)) /\ UNCHANGED vmVars)
        \/ (Reading /\ UNCHANGED vmVars)
Spec == Init /\ [][Next]_<<vmVars, mode, more, idxVars>>

-----------------------------------------------------------------------------
There == {s \in Sorts : made[s] > 0}
WantRows == {Sort(s).row : s \in There}
OfRow(r) == {s \in There : Sort(s).row = r}
Size == [s \in Sorts |-> made[s] * Sort(s).size]
CountOf(r) == SumOf(OfRow(r), made)
SizeOf(r) == SumOf(OfRow(r), Size)
Bytes0 == SumOf(Sorts, Size)
Share(part, total) == IF total = 0 THEN 0 ELSE (100 * part) \div total
WantRow(r) == <<r[2], DigitsOf(CountOf(r)), DigitsOf(Share(CountOf(r), All)), DigitsOf(SizeOf(r)) \o T("B"), DigitsOf(Share(SizeOf(r), Bytes0))>>

RowsAreThere == IsRead => LET s == ShownRows("count", "raw") IN
  /\ Len(s) = Cardinality(WantRows)
  /\ \A r \in WantRows : Cardinality({i \in 1..Len(s) : s[i] = WantRow(r)}) = Cardinality({q \in WantRows : WantRow(q) = WantRow(r)})
TotalsAreSums == IsRead => BInt(TotalCount) = All /\ BInt(TotalSize) = Bytes0
(* descending by the key, then by name: rows that the order leaves equal look alike *)
OrderIsTotal == IsRead => \A key \in {"count", "size"} : LET s == SortRows(key, "shown", Rows) IN
  \A i \in 1..(Len(s) - 1) : /\ ~RowBefore(key, "shown", s[i + 1], s[i])
                             /\ ~RowBefore(key, "shown", s[i], s[i + 1]) => s[i].shown = s[i + 1].shown
(* rounded down, so not more than everything; not less than 1 per row less *)
RECURSIVE Shares(_, _, _)
Shares(s, c, i) == IF i = 0 THEN 0 ELSE Share(BInt(s[i][c]), BInt(IF c = "count" THEN TotalCount ELSE TotalSize)) + Shares(s, c, i - 1)
SharesFit == IsRead => LET s == Rows IN \A c \in {"count", "size"} :
  Shares(s, c, Len(s)) <= 100 /\ (BInt(IF c = "count" THEN TotalCount ELSE TotalSize) > 0 => Shares(s, c, Len(s)) > 100 - Len(s))
=============================================================================
