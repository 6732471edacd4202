------------------------------- MODULE Conform -------------------------------
(* Conformance of the real program to the specification.  The trace is a     *)
(* sequence of scenarios: the bytes of a dump and what was observed of the   *)
(* real program on it.  Each dump is indexed by the actions of Indexer, one  *)
(* per record, and every observation is then judged against what the         *)
(* specification says about the indexed (or refused) dump.                   *)
EXTENDS Reports, Json

Trace == ndJsonDeserialize("trace.ndjson")

VARIABLES l, k     \* scenario and observation to be looked at
vars == <<idxVars, more, l, k>>

-----------------------------------------------------------------------------
(* helpers *)
Range1(s) == {s[i] : i \in 1..Len(s)}
Occurs(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s0, t0) == LET s == TLCEval(s0) t == TLCEval(t0) IN
                   Len(s) = Len(t) /\ \A x \in Range1(s) : Occurs(s, x) = Occurs(t, x)
Pass == <<"ok">>
Fail(what, expected) == <<"reject", what, expected>>
KnownDeviation(what) == <<"known", what>>
Judge(b, what, expected) == IF b THEN Pass ELSE Fail(what, expected)

(* a line of key and value *)
LineIs(line, key, val) ==
  /\ StartsWith(line, key \o T(":"))
  /\ Trim(SubSeq(line, Len(key) + 2, Len(line))) = Trim(val)
Lines(lines, kvs) == Len(lines) = Len(kvs) /\ \A i \in 1..Len(kvs) : LineIs(lines[i], kvs[i][1], kvs[i][2])

-----------------------------------------------------------------------------
(* Is the dump accepted?  C14, C15                                           *)
Verdict(o) == Judge(o.ok = (phase = "indexed"), "verdict", <<phase, why, pos>>)
(* which prefixes of the dump were accepted (their lengths); C14             *)
Prefixes(o) == LET wrong == {n \in Range1(o.accepted) : n < pos} IN
               Judge(IF phase = "indexed" THEN wrong = {} /\ Len(file) \in Range1(o.accepted) ELSE o.accepted = <<>>, "prefixes", <<pos, wrong>>)

(* how a run on the dump ends, and on the dump cut at some length; C14, C15  *)
FailsWell(e) == e.exit # 0 /\ ~e.crashed /\ ~e.report /\ e.reason
Cli(o) == Judge(~o.crashed /\ (phase = "refused" \/ o.exit # 0 => FailsWell(o)), "ending", <<phase, why, pos>>)
Cut(o) == Judge(phase = "indexed" /\ (o.n < pos => \A i \in 1..Len(o.ends) : FailsWell(o.ends[i])), "ending of cut dump", <<o.n, pos>>)

-----------------------------------------------------------------------------
(* Objects report; C04, C05                                                  *)
ObjRows(o) ==
  IF o.exit # 0 THEN Fail("objects failed", <<>>)
  ELSE LET rows == ShownRows("count", "raw")
           e == [i \in 1..Len(rows) |-> <<rows[i][1], rows[i][2], rows[i][4]>>]
           g == [i \in 1..Len(o.rows) |-> <<o.rows[i][1], o.rows[i][2], o.rows[i][4]>>]
           t == <<BDec(TotalCount), SizeText(TotalSize)>>
       IN Judge(SameBag(e, g) /\ o.totals = t, "objects", <<t, e>>)
(* a report on any dump at all: right, if the dump says what is right; C15   *)
Unique(s) == \A i \in 1..(Len(s) - 1) : s[i].id # s[i + 1].id
Sane(t) == t # <<>> /\ \A i \in 1..Len(t) : t[i] \in 33..126 /\ t[i] # 124
NamesSane == /\ \A c \in InstClasses : Sane(ClassName(c).v) /\ ClassName(c).v[1] # BRACKET
             /\ \A c \in InstClasses : classes[c].size[1] < 128 \* no Java object is that big
             /\ \A c \in OArrClasses : Sane(ClassName(c).v) /\ ClassName(c).v[1] = BRACKET /\ FieldType(ClassName(c).v).ok
ObjAny(o) == IF phase = "refused" THEN Fail("report on a refused dump", <<why, pos>>)
             ELSE IF ObjectsOk /\ Unique(insts) /\ Unique(oarrs) /\ Unique(parrs) /\ NamesSane THEN ObjRows(o) ELSE Pass
(* column sorted by and the rows in order, with percentages; the order of    *)
(* rows with equal key and equal name is free                                *)
ObjOrder(o) ==
  IF o.exit # 0 THEN Fail("objects failed", <<>>)
  ELSE LET rows == ShownRows(o.sort, "raw")
           rows2 == ShownRows(o.sort, "shown")
           c == IF o.sort = "size" THEN 4 ELSE 2
           key(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][c]>>]
       IN Judge((key(o.rows) = key(rows) \/ key(o.rows) = key(rows2)) /\ SameBag(rows, o.rows) /\ o.marker = o.sort /\ o.distinct = 1, "order", <<o.sort, rows>>)

-----------------------------------------------------------------------------
(* Summary; C06, C07, C08                                                    *)
SumHeap(o) == IF o.exit # 0 THEN Fail("summary failed", <<>>)
              ELSE Judge(Lines(o.heap, HeapSection), "heap section", HeapSection)
(* the heap section agrees with the totals of the objects report *)
SumAgrees(o) == IF o.exit # 0 THEN Fail("summary failed", <<>>)
                ELSE Judge(/\ Len(o.heap) = 4
                           /\ LineIs(o.heap[3], T("Instances"), o.totals[1])
                           /\ LineIs(o.heap[4], T("Heap Size"), o.totals[2]), "heap section and objects totals", o.totals)
SumProps(o) == IF o.exit # 0 THEN Fail("summary failed", <<>>)
               ELSE LET P == Properties.v
                        ps == SortPairs(P) IN
                    Judge(Lines(o.env, EnvSection(P)) /\ Lines(o.props, ps), "properties", <<EnvSection(P), ps>>)
(* without --all-props only the environment is shown *)
SumEnv(o) == IF o.exit # 0 THEN Fail("summary failed", <<>>)
             ELSE LET P == Properties.v IN
                  Judge(Lines(o.env, EnvSection(P)) /\ o.props = <<>>, "environment", EnvSection(P))
SumUptime(o) == IF o.exit # 0 THEN Fail("summary failed", <<>>)
                ELSE Judge(Lines(o.system, SystemSection), "uptime", SystemSection)

-----------------------------------------------------------------------------
(* Threads; C09, C10, C11.  Lines are <<level, text>>: 0 for the header of a *)
(* thread, 1 for a frame, 2 for a local                                      *)
OfLevel(lines, S) == SelectSeq(lines, LAMBDA x : x[1] \in S)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

Heads(o) ==
  IF o.exit # 0 THEN Fail("threads failed", <<>>)
  ELSE LET d == ThreadDump
           g == OfLevel(o.lines, {0})
           good(i) == g[i][2] = d[i].head
       IN IF Len(g) # Len(d) THEN Fail("threads", [i \in 1..Len(d) |-> d[i].head])
          ELSE IF \A i \in 1..Len(d) : good(i) THEN Pass
          ELSE IF \A i \in 1..Len(d) : good(i) \/ (d[i].deviant # <<>> /\ g[i][2] = d[i].deviant)
          THEN KnownDeviation("alive-without-state")
          ELSE Fail("threads", [i \in 1..Len(d) |-> d[i].head])

Shape(lines) == [i \in 1..Len(lines) |-> IF lines[i][1] = 0 THEN <<0, <<>>>> ELSE lines[i]]
Stacks(o) ==
  IF o.exit # 0 THEN Fail("threads failed", <<>>)
  ELSE LET d == ThreadDump
           e == Flat([t \in 1..Len(d) |-> <<<<0, <<>>>>>> \o [f \in 1..Len(d[t].stack) |-> <<1, d[t].stack[f].text>>]])
       IN Judge(Shape(o.lines) = e, "stacks", e)

(* positions of lines of level 1, and the locals below the one at p *)
Below(lines, p) == LET N == {q \in (p + 1)..Len(lines) : lines[q][1] # 2}
                       e == IF N = {} THEN Len(lines) ELSE MinOf(N) - 1
                   IN [i \in 1..(e - p) |-> lines[p + i][2]]
Locals(o) ==
  IF o.exit # 0 THEN Fail("threads failed", <<>>)
  ELSE LET d == ThreadDump
           slots == Flat([t \in 1..Len(d) |-> <<<<>>>> \o [f \in 1..Len(d[t].stack) |-> d[t].stack[f].locals]])
           at == SelectSeq([i \in 1..Len(o.with) |-> i], LAMBDA i : o.with[i][1] # 2)
       IN Judge(/\ OfLevel(o.with, {0, 1}) = o.without
                /\ Len(at) = Len(slots)
                /\ \A i \in 1..Len(at) : SameBag(slots[i], Below(o.with, at[i])), "locals", slots)

-----------------------------------------------------------------------------
(* A dump from which something is missing: a run either fails, or gives the   *)
(* complete report; C20.  There is none if something the report is about is   *)
(* not in the dump.                                                           *)
RECURSIVE SumCounts(_, _, _)
SumCounts(rows, a, b) == IF a > b THEN <<>> ELSE IF a = b THEN BOfDec(rows[a][2])
                         ELSE LET m == (a + b) \div 2 IN BAdd(SumCounts(rows, a, m), SumCounts(rows, m + 1, b))
WholeObjects(o) ==
  LET all == BN(Len(insts) + Len(oarrs) + Len(parrs)) IN
  IF ObjectsOk /\ NamesSane THEN ObjRows(o)
  ELSE Judge(/\ o.totals[1] = BDec(all)
             /\ Len(o.rows) = Cardinality(RowKeys)
             /\ \A i \in 1..Len(o.rows) : o.rows[i][2] # <<>>
             /\ SumCounts(o.rows, 1, Len(o.rows)) = all, "incomplete objects report", <<BDec(all), Cardinality(RowKeys)>>)
WholeSummary(o) ==
  LET P == Properties
      sized == \A c \in InstClasses : c \in DOMAIN classes
  IN IF ~P.ok \/ ~Uptime.ok \/ ~sized THEN Fail("summary of what is not there", <<P.ok, Uptime.ok, sized>>)
     ELSE Judge(Lines(o.env, EnvSection(P.v)) /\ Lines(o.props, SortPairs(P.v)) /\ Lines(o.system, SystemSection) /\ Lines(o.heap, HeapSection),
                "incomplete summary", <<EnvSection(P.v), SortPairs(P.v), HeapSection>>)
WholeThreads(o) ==
  IF ~ThreadsOk \/ ~FramesOk THEN Fail("threads that are not there", Cardinality(ThreadRoots))
  ELSE LET h == Heads(o) s == Stacks(o) IN
       IF h[1] = "reject" THEN h ELSE IF s[1] = "reject" THEN s
       ELSE IF ~LocalsOk THEN Fail("locals that are not there", <<>>) ELSE Locals(o)
Whole(o) ==
  IF o.end.exit # 0 THEN Judge(FailsWell(o.end), "failure", <<>>)
  ELSE IF o.end.crashed THEN Fail("crash", <<>>)
  ELSE CASE o.of = "objects" -> WholeObjects(o) [] o.of = "summary" -> WholeSummary(o) [] o.of = "threads" -> WholeThreads(o)

-----------------------------------------------------------------------------
(* Strings, wherever they are shown; C13                                     *)
Quote == T("\"")
Names(o) ==
  IF o.exit # 0 THEN Fail("threads failed", <<>>)
  ELSE LET g == OfLevel(o.lines, {0})
           shown == {StringAt(FieldAt(roots[i].obj, T("name"), TObject).v).v : i \in ThreadRoots}
           is(line, n) == StartsWith(line, Quote \o n \o T("\", ID="))
       IN Judge(/\ \A n \in shown : \E i \in 1..Len(g) : is(g[i][2], n)
                /\ \A i \in 1..Len(g) : \E n \in shown : is(g[i][2], n), "names", shown)
PropTexts(o) ==
  IF o.exit # 0 THEN Fail("summary failed", <<>>)
  ELSE LET P == Properties.v IN
       Judge(/\ \A p \in P : \E i \in 1..Len(o.props) : LineIs(o.props[i], p[1], p[2])
             /\ \A i \in 1..Len(o.props) : \E p \in P : LineIs(o.props[i], p[1], p[2]), "property texts", P)

-----------------------------------------------------------------------------
(* The same content in all output modes; C21                                 *)
SameRows(o) == Judge(o.exit = 0 /\ o.color = o.plain /\ o.html = o.plain, "objects modes", o.plain)
SameLines(o) == Judge(o.exit = 0 /\ o.color = o.plain /\ o.html = o.plain, "threads modes", o.plain)
(* summary: sections of lines in plain and color, of key/value pairs in HTML *)
SameSections(o) ==
  Judge(/\ o.exit = 0 /\ o.color = o.plain
        /\ Len(o.html) = Len(o.plain)
        /\ \A i \in 1..Len(o.plain) : o.html[i].name = o.plain[i].name /\ Lines(o.plain[i].lines, o.html[i].pairs),
        "summary modes", o.plain)

-----------------------------------------------------------------------------
(* Lookups in the index; C01, C03, C12                                       *)
Got(seq, id, found, same(_)) == IF IsIn(seq, id) THEN found /\ same(ById(seq, id)) ELSE ~found
Get(o) ==
  Judge(/\ Got(insts, o.id, o.inst.found, LAMBDA r : o.inst.cls = r.cls /\ o.inst.trace = r.trace /\ o.inst.data = Payload(r, 1))
        /\ Got(oarrs, o.id, o.oarr.found, LAMBDA r : o.oarr.cls = r.cls /\ o.oarr.trace = r.trace /\ o.oarr.n = r.n /\ o.oarr.data = Payload(r, idn))
        /\ Got(parrs, o.id, o.parr.found, LAMBDA r : o.parr.ty = r.ty /\ o.parr.trace = r.trace /\ o.parr.n = r.n /\ o.parr.data = Payload(r, Width(r.ty, idn))),
        "get", <<o.id, IsIn(insts, o.id), IsIn(oarrs, o.id), IsIn(parrs, o.id)>>)

(* one of the many: o.i is its number, or -1 if the id is between two        *)
Stamp(i, n) == LET b == <<0, (i \div 65536) % 256, (i \div 256) % 256, i % 256>> IN SubSeq(b, 1, n)
GetMore(o) ==
  LET m == more[o.m]
      id == BAdd(BOfBytes(m.first), BMul(BOfBytes(m.step), BN(o.i)))
      n == BInt(BOfBytes(m.n))
      here == o.i >= 0 /\ BOfBytes(o.id) = id /\ BLt(BN(o.i), BOfBytes(m.count))
      data(w) == IF n * w <= 4 THEN Stamp(o.i, n * w) ELSE Stamp(o.i, 4) \o [b \in 1..(n * w - 4) |-> 0]
      is(kind) == m.key[1] = kind
  IN IF o.i < 0 THEN Judge(~o.inst.found /\ ~o.oarr.found /\ ~o.parr.found, "get", <<m, o.i>>)
     ELSE Judge(/\ here
                /\ o.inst.found = is("inst") /\ o.oarr.found = is("oarr") /\ o.parr.found = is("parr")
                /\ is("inst") => o.inst.id = o.id /\ o.inst.cls = m.key[2] /\ o.inst.data = data(1)
                /\ is("oarr") => o.oarr.cls = m.key[2] /\ o.oarr.n = n /\ o.oarr.data = data(idn)
                /\ is("parr") => o.parr.ty = m.key[2] /\ o.parr.n = n /\ o.parr.data = data(Width(m.key[2], idn)), "get", <<m, o.i>>)

MapGet(m, q, same(_, _)) == IF q.id \in DOMAIN m THEN q.found /\ same(q, m[q.id]) ELSE ~q.found
RootList(kind) == SelectSeq(roots, LAMBDA r : r.kind = kind)
FieldList(fs) == [i \in 1..Len(fs) |-> <<fs[i].name, fs[i].ty>>]
EntryList(es) == [i \in 1..Len(es) |-> <<es[i].key, es[i].ty, es[i].val>>]
SameClass(q, c) == /\ q.trace = c.trace /\ q.super = c.super /\ q.loader = c.loader /\ q.signers = c.signers
                   /\ q.domain = c.domain /\ q.size = c.size /\ q.pool = EntryList(c.pool)
                   /\ q.statics = EntryList(c.statics) /\ q.fields = FieldList(c.fields)
Small(o) ==
  LET bad ==
    [meta |-> ~(o.idsize = idn /\ o.time = time),
     names |-> {i \in 1..Len(o.names) : ~MapGet(names, o.names[i], LAMBDA q, t : q.text = t)},
     frames |-> {i \in 1..Len(o.frames) : ~MapGet(frames, o.frames[i],
                   LAMBDA q, f : <<q.method, q.sig, q.source, q.cls, q.line>> = <<f.method, f.sig, f.source, f.cls, f.line>>)},
     traces |-> {i \in 1..Len(o.traces) : ~MapGet(traces, o.traces[i],
                   LAMBDA q, t : <<q.serial, q.thread, q.frames>> = <<t.serial, t.thread, t.frames>>)},
     classes |-> {i \in 1..Len(o.classes) : ~MapGet(classes, o.classes[i], LAMBDA q, c : SameClass(q, c))},
     loads |-> {i \in 1..Len(o.loads) :
                  LET q == o.loads[i]
                      r == IF q.by = "id" THEN LoadOf(q.id) ELSE LoadOfSerial(q.id) IN
                  ~(q.found = r.ok /\ (r.ok => <<q.serial, q.cls, q.trace, q.name>> = <<r.v.serial, r.v.cls, r.v.trace, r.v.name>>))},
     roots |-> {n \in 1..Len(o.roots) :
                  LET q == o.roots[n]
                      rs == RootList(q.kind) IN
                  q.list # [i \in 1..Len(rs) |-> IF q.kind = 5 THEN <<rs[i].obj>>
                                                  ELSE IF q.kind = 1 THEN <<rs[i].obj, rs[i].a>>
                                                  ELSE <<rs[i].obj, rs[i].a, rs[i].b>>]}]
  IN Judge(~bad.meta /\ \A x \in {"names", "frames", "traces", "classes", "loads", "roots"} : bad[x] = {}, "small records", bad)

FieldObs(o) ==
  LET r == IF IsIn(insts, o.id) THEN Field(ById(insts, o.id), o.name) ELSE Missing IN
  Judge(o.found = r.ok /\ (r.ok => o.ty = r.v.ty /\ o.val = r.v.val /\ Ok(o.origin) = ClassName(r.v.cls)), "field", r)
ElemsObs(o) ==
  LET r == Elements(o.id) IN
  Judge(o.found = r.ok /\ (r.ok => o.elems = r.v /\ o.cls = ById(oarrs, o.id).cls), "elements", r)
StringObs(o) == LET r == StringAt(o.id) IN Judge(o.found = r.ok /\ (r.ok => o.text = r.v), "string", r)

-----------------------------------------------------------------------------
Check(o) ==
  CASE o.kind = "verdict" -> Verdict(o)
    [] o.kind = "prefixes" -> Prefixes(o)
    [] o.kind = "cli" -> Cli(o)
    [] o.kind = "cut" -> Cut(o)
    [] o.kind = "objany" -> ObjAny(o)
    [] o.kind = "whole" /\ phase # "indexed" -> Judge(FailsWell(o.end), "ending", <<phase, why>>)
    [] o.kind = "panic" -> Fail("crash", <<phase, why, pos>>)
    [] phase # "indexed" -> Fail("the specification refuses this dump", <<why, pos>>)
    [] o.kind = "objrows" -> ObjRows(o)
    [] o.kind = "objorder" -> ObjOrder(o)
    [] o.kind = "sumheap" -> SumHeap(o)
    [] o.kind = "sumagrees" -> SumAgrees(o)
    [] o.kind = "sumprops" -> SumProps(o)
    [] o.kind = "sumenv" -> SumEnv(o)
    [] o.kind = "sumuptime" -> SumUptime(o)
    [] o.kind = "heads" -> Heads(o)
    [] o.kind = "stacks" -> Stacks(o)
    [] o.kind = "locals" -> Locals(o)
    [] o.kind = "whole" -> Whole(o)
    [] o.kind = "names" -> Names(o)
    [] o.kind = "proptexts" -> PropTexts(o)
    [] o.kind = "samerows" -> SameRows(o)
    [] o.kind = "samelines" -> SameLines(o)
    [] o.kind = "samesections" -> SameSections(o)
    [] o.kind = "get" -> Get(o)
    [] o.kind = "getmore" -> GetMore(o)
    [] o.kind = "small" -> Small(o)
    [] o.kind = "field" -> FieldObs(o)
    [] o.kind = "elems" -> ElemsObs(o)
    [] o.kind = "string" -> StringObs(o)

Obs == Trace[l].obs
Index == l <= Len(Trace) /\ ~Finished /\ IndexStep /\ UNCHANGED <<more, l, k>>
Observe ==
  /\ l <= Len(Trace) /\ Finished /\ k <= Len(Obs)
  /\ LET v == Check(Obs[k]) IN
     IF v[1] = "ok" THEN TRUE ELSE PrintT(<<"VERDICT", ToJson([l |-> l, k |-> k, v |-> v])>>)
  /\ k' = k + 1 /\ UNCHANGED <<idxVars, more, l>>
NextScenario ==
  /\ l <= Len(Trace) /\ Finished /\ k > Len(Obs)
  /\ l' = l + 1 /\ k' = 1
  /\ IF l < Len(Trace) THEN RestartIndexing(Trace[l + 1].file) /\ more' = Trace[l + 1].more ELSE UNCHANGED <<idxVars, more>>

Init == l = 1 /\ k = 1 /\ StartIndexing(Trace[1].file) /\ more = Trace[1].more
Next == Index \/ Observe \/ NextScenario
Spec == Init /\ [][Next]_vars

(* the behaviour is deterministic: this much tells its states apart *)
View == <<l, k, phase, pos>>
(* and this much is printed of them should the evaluation fail               *)
Where == [l |-> l, k |-> k, phase |-> phase, pos |-> pos]
(* the whole trace has been looked at: scenarios, observations, records *)
Accepted == TLCGet("stats").diameter >= Len(Trace)
Done == l = Len(Trace) + 1 => PrintT(<<"DONE", l - 1>>)
=============================================================================
