------------------------------- MODULE Reports -------------------------------
(* What the three reports say about an indexed dump.  All of it is a         *)
(* function of the content of the dump alone.                                *)
EXTENDS JavaHeap, Format
Ext == INSTANCE SequencesExt

(* Objects of which only their number and size matter, before all others of  *)
(* their kinds: a sequence of [key, first, step, count, n, stamp].  They are  *)
(* in the dump as <<kind, class or element type>>, their ids are first,       *)
(* first + step..., each has n elements or bytes; the numbers are big-endian  *)
(* bytes.  Together with the bytes in file this is a dump too large to be     *)
(* looked at byte by byte.                                                    *)
VARIABLE more

-----------------------------------------------------------------------------
(* Objects: one row per class with instances, per class of object arrays     *)
(* with arrays, and per element type with primitive arrays                   *)
Count(seq, P(_)) == Cardinality({i \in 1..Len(seq) : P(seq[i])})
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN <<>> ELSE BAdd(Head(s), Sum(Tail(s))) \* of BigNats
(* elements of the arrays that satisfy P *)
SumN(seq, P(_)) == Sum(TLCEval([i \in 1..Len(seq) |-> IF P(seq[i]) THEN BN(seq[i].n) ELSE <<>>]))
Row(raw, shown, n, size) == [raw |-> raw, shown |-> shown, count |-> n, size |-> size]
MoreOf(key) == Sum([i \in 1..Len(more) |-> IF more[i].key = key THEN BOfBytes(more[i].count) ELSE <<>>])
MoreN(key) == Sum([i \in 1..Len(more) |-> IF more[i].key = key THEN BMul(BOfBytes(more[i].count), BOfBytes(more[i].n)) ELSE <<>>])

ShownName(c) == LET n == ClassName(c) IN IF n.ok THEN n.v ELSE <<>> \* there is no report then
InstRow(c) == LET k == TLCEval(BAdd(BN(Count(insts, LAMBDA o : o.cls = c)), MoreOf(<<"inst", c>>))) IN
              Row(ShownName(c), Dotted(ShownName(c)), k, BMul(BOfBytes(classes[c].size), k))
OArrRow(c) == Row(TypeOfClass(ShownName(c)), TypeOfClass(ShownName(c)),
                  BAdd(BN(Count(oarrs, LAMBDA o : o.cls = c)), MoreOf(<<"oarr", c>>)),
                  BMulS(BAdd(SumN(oarrs, LAMBDA o : o.cls = c), MoreN(<<"oarr", c>>)), idn))
PArrRow(t) == Row(TypeName(t) \o T("[]"), TypeName(t) \o T("[]"),
                  BAdd(BN(Count(parrs, LAMBDA o : o.ty = t)), MoreOf(<<"parr", t>>)),
                  BMulS(BAdd(SumN(parrs, LAMBDA o : o.ty = t), MoreN(<<"parr", t>>)), Width(t, idn)))

MoreKeys == {more[i].key : i \in 1..Len(more)}
InstClasses == {insts[i].cls : i \in 1..Len(insts)} \cup {k[2] : k \in {x \in MoreKeys : x[1] = "inst"}}
OArrClasses == {oarrs[i].cls : i \in 1..Len(oarrs)} \cup {k[2] : k \in {x \in MoreKeys : x[1] = "oarr"}}
ObjectsOk == /\ \A c \in InstClasses : ClassName(c).ok /\ c \in DOMAIN classes
             /\ \A c \in OArrClasses : ClassName(c).ok
(* keyed by what the row is about, so that equal rows of different classes   *)
(* stay different rows                                                       *)
RowKeys == {<<"inst", c>> : c \in InstClasses} \cup {<<"oarr", c>> : c \in OArrClasses}
           \cup {<<"parr", parrs[i].ty>> : i \in 1..Len(parrs)} \cup MoreKeys
RowOf(k) == CASE k[1] = "inst" -> InstRow(k[2]) [] k[1] = "oarr" -> OArrRow(k[2]) [] k[1] = "parr" -> PArrRow(k[2])

Rows == LET ks == TLCEval(Ext!SetToSeq(RowKeys)) IN TLCEval([i \in 1..Len(ks) |-> RowOf(ks[i])])
TotalCount == LET s == Rows IN Sum(TLCEval([i \in 1..Len(s) |-> s[i].count]))
TotalSize == LET s == Rows IN Sum(TLCEval([i \in 1..Len(s) |-> s[i].size]))

(* rows in the order of the report: by the key asked for, descending, then   *)
(* by the name, as it is in the dump ("raw") or as it is shown               *)
RowBefore(key, nm, a, b) ==
  LET ka == IF key = "size" THEN a.size ELSE a.count
      kb == IF key = "size" THEN b.size ELSE b.count
  IN IF ka # kb THEN BLt(kb, ka) ELSE LexLt(a[nm], b[nm])
SortRows(key, nm, s) == SortSeq(s, LAMBDA a, b : RowBefore(key, nm, a, b))

(* as printed: name, count, percent of count, size, percent of size *)
Shown(r, tc, ts) == <<r.shown, BDec(r.count), DigitsOf(Percent(r.count, tc)), SizeText(r.size), DigitsOf(Percent(r.size, ts))>>
ShownRows(key, nm) ==
  LET tc == TLCEval(TotalCount) ts == TLCEval(TotalSize) s == TLCEval(SortRows(key, nm, Rows))
  IN TLCEval([i \in 1..Len(s) |-> Shown(s[i], tc, ts)])

-----------------------------------------------------------------------------
(* Summary *)
Classes == {loads[i].cls : i \in 1..Len(loads)}
HeapSection == << <<T("Classes"), DigitsOf(Cardinality(Classes))>>, <<T("GC Roots"), DigitsOf(Len(roots))>>,
                  <<T("Instances"), BDec(TotalCount)>>, <<T("Heap Size"), SizeText(TotalSize)>> >>

(* system properties: System.props -> Properties.map -> ConcurrentHashMap    *)
(* .table -> nodes                                                           *)
PropsTable ==
  LET sys == ClassNamed(T("java/lang/System"))
      props == IF sys.ok THEN StaticOf(sys.v, T("props"), TObject) ELSE Missing
      map == IF props.ok THEN FieldAt(props.v, T("map"), TObject) ELSE Missing
      table == IF map.ok THEN FieldAt(map.v, T("table"), TObject) ELSE Missing
  IN IF table.ok THEN Elements(table.v) ELSE Missing
TreeBin == T("java/util/concurrent/ConcurrentHashMap$TreeBin")
NextNode(id) == LET o == ById(insts, id) IN
                IF ClassName(o.cls) = Ok(TreeBin) THEN FieldOfType(o, T("first"), TObject)
                ELSE FieldOfType(o, T("next"), TObject)
(* the nodes of one bucket that carry a pair *)
RECURSIVE Bucket(_, _)
Bucket(id, seen) ==
  IF IsNull(id) THEN Ok({})
  ELSE IF ~IsIn(insts, id) \/ id \in seen THEN Missing
  ELSE LET nx == NextNode(id) IN
       IF ~nx.ok THEN Missing
       ELSE LET rest == Bucket(nx.v, seen \cup {id}) IN
            IF ~rest.ok THEN Missing
            ELSE Ok(rest.v \cup (IF ClassName(ById(insts, id).cls) = Ok(TreeBin) THEN {} ELSE {id}))
PairOf(id) == LET k == FieldAt(id, T("key"), TObject)
                  v == FieldAt(id, T("val"), TObject)
                  ks == IF k.ok THEN StringAt(k.v) ELSE Missing
                  vs == IF v.ok THEN StringAt(v.v) ELSE Missing
              IN IF ks.ok /\ vs.ok THEN Ok(<<ks.v, vs.v>>) ELSE Missing
Properties ==
  LET t == PropsTable IN
  IF ~t.ok THEN Missing
  ELSE LET bs == {Bucket(t.v[i], {}) : i \in 1..Len(t.v)} IN
       IF \E b \in bs : ~b.ok THEN Missing
       ELSE LET ps == {PairOf(id) : id \in UNION {b.v : b \in bs}} IN
            IF \E p \in ps : ~p.ok THEN Missing ELSE Ok({p.v : p \in ps})
SortPairs(P) == SortSeq(Ext!SetToSeq(P), LAMBDA p, q : LexLt(p[1], q[1]))
Value(P, key) == IF \E p \in P : p[1] = key THEN (CHOOSE p \in P : p[1] = key)[2] ELSE <<>>
EnvSection(P) ==
  << <<T("Architecture"), Value(P, T("os.arch"))>>,
     <<T("JavaHome"), Value(P, T("java.home"))>>,
     <<T("JavaName"), Value(P, T("java.vm.name")) \o T(" (") \o Value(P, T("java.vm.version")) \o T(", ")
                      \o Value(P, T("java.vm.info")) \o T(")")>>,
     <<T("JavaVendor"), Value(P, T("java.vm.vendor"))>>,
     <<T("JavaVersion"), Value(P, T("java.version"))>>,
     <<T("System"), Value(P, T("os.name"))>> >>

(* uptime *)
Uptime ==
  LET mf == ClassNamed(T("sun/management/ManagementFactoryHelper"))
      bean == IF mf.ok THEN StaticOf(mf.v, T("runtimeMBean"), TObject) ELSE Missing
      start == IF bean.ok THEN FieldAt(bean.v, T("vmStartupTime"), TLong) ELSE Missing
  IN IF start.ok THEN Ok(SpanText(SSub(SInt(FALSE, BOfBytes(time)), SOfBytes(start.v)))) ELSE Missing
SystemSection == << <<T("JVM Uptime"), Uptime.v>> >>

-----------------------------------------------------------------------------
(* Threads *)
ThreadRoots == {i \in 1..Len(roots) : roots[i].kind = 8}
Attr(i, name, ty) == FieldAt(roots[i].obj, name, ty)
Signed(b) == SOfBytes(b)

(* java.lang.Thread.State of the status bits, as the JDK derives it *)
Bit(status, n) == (Int2(SubSeq(status, 3, 4)) \div n) % 2 = 1
StateText(s) ==
  IF Bit(s, 4) THEN T("RUNNABLE")
  ELSE IF Bit(s, 1024) THEN T("BLOCKED")
  ELSE IF Bit(s, 16) THEN T("WAITING")
  ELSE IF Bit(s, 32) THEN T("TIMED_WAITING")
  ELSE IF Bit(s, 2) THEN T("TERMINATED")
  ELSE IF ~Bit(s, 1) THEN T("NEW")
  ELSE T("RUNNABLE")
(* known deviation of the program, see known-findings: a thread with just    *)
(* the ALIVE bit is shown as NEW                                             *)
JustAlive(s) == Bit(s, 1) /\ ~\E n \in {2, 4, 16, 32, 1024} : Bit(s, n)

HeadText(name, tid, prio, state, daemon) ==
  T("\"") \o name \o T("\", ID=") \o SDec(Signed(tid)) \o T(", prio=") \o SDec(Signed(prio))
  \o T(", status=") \o state \o (IF daemon THEN T(" (daemon)") ELSE <<>>)

(* attributes of the thread of root i, or Missing *)
ThreadAttrs(i) ==
  LET nameRef == Attr(i, T("name"), TObject)
      name == IF nameRef.ok THEN StringAt(nameRef.v) ELSE Missing
      daemon == Attr(i, T("daemon"), TBoolean)
      prio == Attr(i, T("priority"), TInt)
      tid == Attr(i, T("tid"), TLong)
      status == Attr(i, T("threadStatus"), TInt)
  IN IF name.ok /\ daemon.ok /\ prio.ok /\ tid.ok /\ status.ok /\ roots[i].a \in DOMAIN traces
     THEN Ok([name |-> name.v, daemon |-> daemon.v = <<1>>, prio |-> prio.v, tid |-> tid.v, status |-> status.v,
              serial |-> roots[i].a])
     ELSE Missing
ThreadsOk == \A i \in ThreadRoots : ThreadAttrs(i).ok

Unknown == T("<unknown string>")
OrUnknown(r) == IF r.ok THEN r.v ELSE Unknown
LineText(b) == CASE b = <<255, 255, 255, 254>> -> T("CompiledMethod")
                 [] b = <<255, 255, 255, 253>> -> T("NativeMethod")
                 [] OTHER -> BDec(BOfBytes(b))
Location(fr) ==
  LET src == NameOf(fr.source) IN
  IF ~src.ok THEN <<>>
  ELSE IF fr.line = <<255, 255, 255, 255>> THEN src.v
  ELSE src.v \o T(":") \o LineText(fr.line)
FrameText(fr) ==
  LET cls == LoadOfSerial(fr.cls)
      sig == NameOf(fr.sig)
      m == IF sig.ok THEN MethodType(sig.v) ELSE [ok |-> TRUE, args |-> <<>>, ret |-> Unknown]
  IN Trim(m.ret \o T(" ") \o Dotted(IF cls.ok THEN OrUnknown(NameOf(cls.v.name)) ELSE Unknown) \o T(".")
          \o OrUnknown(NameOf(fr.method)) \o T("(") \o ArgText(m.args) \o T(") ") \o Location(fr))

(* type of a local: of the object the root holds *)
LocalType(id) ==
  IF IsIn(insts, id) THEN LET n == ClassName(ById(insts, id).cls) IN IF n.ok THEN Ok(Dotted(n.v)) ELSE Missing
  ELSE IF IsIn(oarrs, id) THEN LET n == ClassName(ById(oarrs, id).cls) IN IF n.ok THEN Ok(TypeOfClass(n.v)) ELSE Missing
  ELSE IF IsIn(parrs, id) THEN Ok(TypeName(ById(parrs, id).ty) \o Dims(1))
  ELSE LET n == ClassName(id) IN IF n.ok THEN Ok(T("class ") \o TypeOfClass(n.v)) ELSE Missing
LocalText(id) == T("local ") \o LocalType(id).v
LocalRoots == {i \in 1..Len(roots) : roots[i].kind \in {2, 3}}
LocalsOk == \A i \in LocalRoots : LocalType(roots[i].obj).ok

FrameNo(n) == BOfBytes(n)
(* locals of frame number k (from 0) of a thread: one per root record *)
LocalsAt(serial, k) == {i \in LocalRoots : roots[i].a = serial /\ FrameNo(roots[i].b) = BN(k)}
SetSeq(S) == SortSeq(Ext!SetToSeq(S), LAMBDA i, j : i < j)
LocalTexts(serial, k) == LET s == SetSeq(LocalsAt(serial, k)) IN [j \in 1..Len(s) |-> LocalText(roots[s[j]].obj)]

StackOf(serial) ==
  LET fs == traces[serial].frames IN
  [k \in 1..Len(fs) |-> [text |-> FrameText(frames[fs[k]]), locals |-> LocalTexts(serial, k - 1)]]
FramesOk == \A i \in ThreadRoots : ThreadAttrs(i).ok =>
              \A k \in 1..Len(traces[roots[i].a].frames) :
                 LET id == traces[roots[i].a].frames[k] IN
                 id \in DOMAIN frames /\ LoadOfSerial(frames[id].cls).ok

(* the threads in the order of their ids; tid is the id of each *)
ByTid(S, tid) == SortSeq(Ext!SetToSeq(S), LAMBDA i, j : SLt(tid[i], tid[j]))
(* the thread dump: threads by id, each with its header and its stack *)
ThreadDump ==
  LET attrs == TLCEval([i \in ThreadRoots |-> ThreadAttrs(i).v])
      order == TLCEval(ByTid(ThreadRoots, TLCEval([i \in ThreadRoots |-> Signed(attrs[i].tid)])))
  IN TLCEval([t \in 1..Len(order) |->
     LET a == attrs[order[t]] IN
     [head |-> HeadText(a.name, a.tid, a.prio, StateText(a.status), a.daemon),
      deviant |-> IF JustAlive(a.status) THEN HeadText(a.name, a.tid, a.prio, T("NEW"), a.daemon) ELSE <<>>,
      name |-> a.name,
      stack |-> StackOf(a.serial)]])
=============================================================================
