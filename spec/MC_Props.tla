------------------------------- MODULE MC_Props -------------------------------
(* The system properties as Java keeps them: a hash table of chains that grow *)
(* at their end, become trees and lists again, and are split when the table   *)
(* doubles.  Properties are set and removed until a dump is taken; the        *)
(* summary shows every property there is, with the value set last.            *)
EXTENDS Jvm

CONSTANTS Keys, MaxCap, Starts

VARIABLES
  props,    \* key -> value, as set
  table,    \* 0..cap - 1 -> [tree, nodes]; a node is <<key, value>>
  start     \* when the VM was started
vmVars == <<props, table, start>>
View == <<vmVars, mode, phase, pos>>

(* <<text, hash>> *)
Key(k) == CASE k = 1 -> <<T("os.name"), 1>> [] k = 2 -> <<T("k"), 3>> [] k = 3 -> <<T("java.home"), 0>> [] k = 4 -> <<<<>>, 5>>
Vals == {1, 2}
Val(v) == IF v = 1 THEN T("x y") ELSE <<>>
Cap == Cardinality(DOMAIN table)
BucketOf(k) == Key(k)[2] % Cap
PlaceIn(nodes, k) == {i \in 1..Len(nodes) : nodes[i][1] = k}
Bag == [tree |-> FALSE, nodes |-> <<>>]

Put == \E k \in Keys, v \in Vals :
  LET b == BucketOf(k) here == PlaceIn(table[b].nodes, k) IN
  /\ props' = (k :> v) @@ props
  /\ table' = [table EXCEPT ![b].nodes = IF here = {} THEN Append(@, <<k, v>>) ELSE [@ EXCEPT ![MinOf(here)] = <<k, v>>]]
  /\ UNCHANGED start
Remove == \E k \in DOMAIN props :
  LET b == BucketOf(k) IN
  /\ props' = [x \in DOMAIN props \ {k} |-> props[x]]
  /\ table' = [table EXCEPT ![b] = LET rest == SelectSeq(@.nodes, LAMBDA x : x[1] # k) IN [tree |-> @.tree /\ rest # <<>>, nodes |-> rest]]
  /\ UNCHANGED start
Treeify == \E b \in DOMAIN table : table[b].nodes # <<>> /\ table' = [table EXCEPT ![b].tree = ~@] /\ UNCHANGED <<props, start>>
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
(* the chains that are split may come out in another order *)
Double == /\ 2 * Cap <= MaxCap /\ UNCHANGED <<props, start>>
          /\ \E rev \in BOOLEAN :
               table' = [b \in 0..(2 * Cap - 1) |->
                 LET old == table[b % Cap]
                     part == SelectSeq(old.nodes, LAMBDA x : Key(x[1])[2] % (2 * Cap) = b)
                 IN [tree |-> old.tree /\ Len(part) > 1, nodes |-> IF rev THEN Reverse(part) ELSE part]]

(* -- the dump -- *)
O(n) == [name |-> T(n), ty |-> TObject]
I(n) == [name |-> T(n), ty |-> TInt]
Cls(i, up, n, sz, st, fs) == [id |-> i, super |-> up, name |-> n, size |-> sz, statics |-> st, fields |-> fs]
Ref(n, k) == [name |-> T(n), ty |-> TObject, val |-> Id(k)]
AllClasses == <<ObjectClass, StringClass,
  Cls(110, 100, T("java/util/concurrent/ConcurrentHashMap$Node"), 32, <<>>, <<I("hash"), O("key"), O("val"), O("next")>>),
  Cls(111, 110, T("java/util/concurrent/ConcurrentHashMap$TreeNode"), 48, <<>>, <<O("parent"), O("prev"), [name |-> T("red"), ty |-> TBoolean]>>),
  Cls(112, 110, TreeBin, 40, <<>>, <<O("root"), O("first"), I("lockState")>>),
  Cls(113, 100, T("java/util/concurrent/ConcurrentHashMap"), 64, <<>>, <<I("sizeCtl"), O("table"), O("nextTable")>>),
  Cls(115, 100, T("java/util/Hashtable"), 40, <<>>, <<O("table"), I("count")>>),
  Cls(114, 115, T("java/util/Properties"), 48, <<>>, <<O("map"), O("defaults")>>),
  Cls(116, 100, T("java/lang/System"), 0, <<Ref("security", 0), Ref("props", 131)>>, <<>>),
  Cls(117, 100, T("sun/management/ManagementFactoryHelper"), 0, <<Ref("runtimeMBean", 132)>>, <<>>),
  Cls(118, 100, T("sun/management/RuntimeImpl"), 16, <<>>, <<[name |-> T("vmStartupTime"), ty |-> TLong]>>),
  Cls(119, 100, T("[Ljava/util/concurrent/ConcurrentHashMap$Node;"), 0, <<>>, <<>>)>>
MyPool == <<T("java/lang/Object"), T("java/lang/String"), T("java/util/concurrent/ConcurrentHashMap$Node"), T("java/util/concurrent/ConcurrentHashMap$TreeNode"), TreeBin,
  T("java/util/concurrent/ConcurrentHashMap"), T("java/util/Hashtable"), T("java/util/Properties"), T("java/lang/System"), T("sun/management/ManagementFactoryHelper"),
  T("sun/management/RuntimeImpl"), T("[Ljava/util/concurrent/ConcurrentHashMap$Node;"), T("coder"), T("value"), T("hash"), T("key"), T("val"), T("next"), T("parent"), T("prev"), T("red"),
  T("root"), T("first"), T("lockState"), T("sizeCtl"), T("table"), T("nextTable"), T("count"), T("map"), T("defaults"), T("security"), T("props"), T("runtimeMBean"), T("vmStartupTime")>>

KeySeq == SelectSeq(<<1, 2, 3, 4>>, LAMBDA k : k \in DOMAIN props)
NodeId(k) == 200 + k
NextId(nodes, i) == IF i = Len(nodes) THEN 0 ELSE NodeId(nodes[i + 1][1])
Ints(k) == U4(k)
NodeRec(k) ==
  LET b == table[BucketOf(k)] i == MinOf(PlaceIn(b.nodes, k))
      own == Ints(Key(k)[2]) \o Id(300 + k) \o Id(320 + b.nodes[i][2]) \o Id(NextId(b.nodes, i)) IN
  IF b.tree THEN InstRec(NodeId(k), 111, Id(0) \o Id(IF i = 1 THEN 0 ELSE NodeId(b.nodes[i - 1][1])) \o <<0>> \o own) ELSE InstRec(NodeId(k), 110, own)
BinRec(b) == LET first == NodeId(table[b].nodes[1][1]) IN
  InstRec(210 + b, 112, Id(NodeId(table[b].nodes[Len(table[b].nodes)][1])) \o Id(first) \o Ints(0) \o <<255, 255, 255, 254>> \o Id(0) \o Id(0) \o Id(0))
Buckets == [b \in 1..Cap |-> b - 1]
HeadId(b) == IF table[b].nodes = <<>> THEN 0 ELSE IF table[b].tree THEN 210 + b ELSE NodeId(table[b].nodes[1][1])
Bins == SelectSeq(Buckets, LAMBDA b : table[b].tree)
Objects ==
  InstRec(130, 113, Ints(12) \o Id(500) \o Id(0)) \o InstRec(131, 114, Id(130) \o Id(0) \o Id(0) \o Ints(0)) \o InstRec(132, 118, U8(start))
  \o Each(KeySeq, NodeRec) \o Each(Bins, BinRec)
  \o Each(KeySeq, LAMBDA k : StringRec(300 + k, 400 + k)) \o Each(<<1, 2>>, LAMBDA v : StringRec(320 + v, 420 + v))
  \o Each(KeySeq, LAMBDA k : TextRec(400 + k, Key(k)[1])) \o Each(<<1, 2>>, LAMBDA v : TextRec(420 + v, Val(v)))
  \o OArrRec(500, 119, [b \in 1..Cap |-> HeadId(b - 1)])
Roots == RootRec(5, 116, <<>>) \o RootRec(5, 117, <<>>) \o RootRec(5, 116, <<>>)
Now == 60000
Dump == DumpOf(U8(Now), NameRecs \o Each(AllClasses, LoadRec), Roots \o Each(AllClasses, ClassRec) \o Objects)

Init == props = <<>> /\ table = [b \in {0} |-> Bag] /\ start \in Starts /\ StartVm
Next == ((Put \/ Remove \/ Treeify \/ Double) /\ Running) \/ (TakeDump(Dump) /\ UNCHANGED vmVars) \/ (Reading /\ UNCHANGED vmVars)
Spec == Init /\ [][Next]_<<vmVars, mode, more, idxVars>>

-----------------------------------------------------------------------------
(* the table of the VM is a map: nothing is lost in it *)
TableIsMap == LET ns == UNION {{table[b].nodes[i] : i \in 1..Len(table[b].nodes)} : b \in DOMAIN table} IN
  /\ ns = {<<k, props[k]>> : k \in DOMAIN props}
  /\ \A b \in DOMAIN table : \A i \in 1..Len(table[b].nodes) : BucketOf(table[b].nodes[i][1]) = b
ShownAsSet == IsRead => Properties = Ok({<<Key(k)[1], Val(props[k])>> : k \in DOMAIN props})
Get(k) == IF k \in DOMAIN props THEN Val(props[k]) ELSE <<>>
EnvironmentToo == IsRead => LET e == EnvSection(Properties.v) IN
  e[6] = <<T("System"), Get(1)>> /\ e[2] = <<T("JavaHome"), Get(3)>> /\ e[5][2] = <<>> /\ e[3][2] = T(" (, )")
UpSince == IsRead => Uptime = Ok(CASE start = 60000 -> T("0s") [] start = 59001 -> T("999ms") [] start = 58500 -> T("1.5s") [] start = 0 -> T("1m0s"))
NodeSize(k) == IF table[BucketOf(k)].tree THEN 48 ELSE 32
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
HeapAsItIs == IsRead =>
  LET ks == Len(KeySeq)
      count == 3 + ks + Len(Bins) + 2 * (ks + 2) + 1
      size == 64 + 48 + 16 + SumSeq([i \in 1..ks |-> NodeSize(KeySeq[i]) + 24 + Len(Key(KeySeq[i])[1])]) + 40 * Len(Bins) + 48 + 3 + Cap * IdSize
  IN HeapSection = << <<T("Classes"), DigitsOf(12)>>, <<T("GC Roots"), DigitsOf(3)>>, <<T("Instances"), DigitsOf(count)>>, <<T("Heap Size"), SizeText(BN(size))>> >>
=============================================================================
