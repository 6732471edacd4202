------------------------------- MODULE Indexer -------------------------------
(* Indexing a dump: the file is read once from the start, one action per     *)
(* record kind.  Small records are kept, heap objects are remembered by the  *)
(* place where they are.  Reading ends with the end mark (indexed) or with   *)
(* the first thing that cannot be a dump (refused).                          *)
EXTENDS Hprof

VARIABLES
  file,      \* the bytes of the dump
  phase,     \* "header", "top", "segment", "indexed", "refused"
  why,       \* reason of refusal: "", "truncated", "malformed", "order"
  pos,       \* offset of the next unread byte
  idn,       \* identifier size in bytes
  time,      \* timestamp of the header: 8 bytes, big-endian milliseconds
  names,     \* id -> text
  loads,     \* sequence of loaded classes
  frames,    \* frame id -> frame
  traces,    \* thread serial -> trace
  roots,     \* sequence of GC roots of every kind
  classes,   \* class object id -> class dump
  insts, oarrs, parrs  \* sequences of instances, object arrays, primitive arrays

idxVars == <<file, phase, why, pos, idn, time, names, loads, frames, traces, roots, classes, insts, oarrs, parrs>>
content == <<names, loads, frames, traces, roots, classes, insts, oarrs, parrs>>

Empty == [x \in {} |-> x]

StartIndexing(f) ==
  /\ file = f /\ phase = "header" /\ why = "" /\ pos = 0 /\ idn = 0 /\ time = <<>>
  /\ names = Empty /\ loads = <<>> /\ frames = Empty /\ traces = Empty /\ roots = <<>> /\ classes = Empty
  /\ insts = <<>> /\ oarrs = <<>> /\ parrs = <<>>
RestartIndexing(f) ==
  /\ file' = f /\ phase' = "header" /\ why' = "" /\ pos' = 0 /\ idn' = 0 /\ time' = <<>>
  /\ names' = Empty /\ loads' = <<>> /\ frames' = Empty /\ traces' = Empty /\ roots' = <<>> /\ classes' = Empty
  /\ insts' = <<>> /\ oarrs' = <<>> /\ parrs' = <<>>

Refuse(r) ==
  /\ phase' = "refused" /\ why' = r
  /\ UNCHANGED <<file, pos, idn, time>> /\ UNCHANGED content

-----------------------------------------------------------------------------
Header ==
  /\ phase = "header"
  /\ IF ~Avail(file, 0, 31) THEN Refuse("truncated")
     ELSE IF Bytes(file, 0, 19) # Magic \/ ~IsIdSize(Bytes(file, 19, 4)) THEN Refuse("malformed")
     ELSE /\ phase' = "top" /\ pos' = 31
          /\ idn' = Byte(file, 22) /\ time' = Bytes(file, 23, 8)
          /\ UNCHANGED <<file, why>> /\ UNCHANGED content

(* top-level records: tag, u4 time (ignored), u4 length, body *)
TopIs(tag) == phase = "top" /\ Avail(file, pos, 9) /\ Byte(file, pos) = tag
Decl == Len4(Bytes(file, pos + 5, 4))
TopCut == phase = "top" /\ ~Avail(file, pos, 9) /\ Refuse("truncated")
TopUnknown == /\ phase = "top" /\ Avail(file, pos, 9)
              /\ Byte(file, pos) \notin {UTF8, LOADCLASS, FRAME, TRACE, SEGMENT, ENDTAG}
              /\ Refuse("malformed")

(* take a decoded record d at header length h, or refuse *)
Take(d, h) == IF d.st = "ok" THEN pos' = pos + h + d.len /\ UNCHANGED <<file, phase, why, idn, time>> ELSE Refuse(d.st)

Name == /\ TopIs(UTF8)
        /\ LET d == DUtf8(file, pos + 9, idn, Decl) IN
           /\ Take(d, 9)
           /\ d.st = "ok" => /\ names' = (d.rec.id :> d.rec.text) @@ names
                             /\ UNCHANGED <<loads, frames, traces, roots, classes, insts, oarrs, parrs>>
LoadClass == /\ TopIs(LOADCLASS)
             /\ LET d == DLoad(file, pos + 9, idn, Decl) IN
                /\ Take(d, 9)
                /\ d.st = "ok" => /\ loads' = Append(loads, d.rec)
                                  /\ UNCHANGED <<names, frames, traces, roots, classes, insts, oarrs, parrs>>
Frame == /\ TopIs(FRAME)
         /\ LET d == DFrame(file, pos + 9, idn, Decl) IN
            /\ Take(d, 9)
            /\ d.st = "ok" => /\ frames' = (d.rec.id :> d.rec) @@ frames
                              /\ UNCHANGED <<names, loads, traces, roots, classes, insts, oarrs, parrs>>
StackTrace == /\ TopIs(TRACE)
              /\ LET d == DTrace(file, pos + 9, idn, Decl) IN
                 /\ Take(d, 9)
                 /\ d.st = "ok" => /\ traces' = (d.rec.thread :> d.rec) @@ traces
                                   /\ UNCHANGED <<names, loads, frames, roots, classes, insts, oarrs, parrs>>
SegmentStart == /\ TopIs(SEGMENT)
                /\ phase' = "segment" /\ pos' = pos + 9
                /\ UNCHANGED <<file, why, idn, time>> /\ UNCHANGED content
End == /\ TopIs(ENDTAG)
       /\ phase' = "indexed" /\ pos' = pos + 9
       /\ UNCHANGED <<file, why, idn, time>> /\ UNCHANGED content

-----------------------------------------------------------------------------
(* inside a segment *)
SubIs(k) == phase = "segment" /\ Avail(file, pos, 1) /\ Byte(file, pos) = k
SubCut == phase = "segment" /\ ~Avail(file, pos, 1) /\ Refuse("truncated")
SubUnknown == /\ phase = "segment" /\ Avail(file, pos, 1)
              /\ Byte(file, pos) \notin SubRoots \cup {CLASSDUMP, INSTDUMP, OARRDUMP, PARRDUMP, SEGMENT, ENDTAG}
              /\ Refuse("malformed")
SegmentEnd == /\ SubIs(SEGMENT) \/ SubIs(ENDTAG)
              /\ phase' = "top"
              /\ UNCHANGED <<file, why, pos, idn, time>> /\ UNCHANGED content
Root == /\ \E k \in SubRoots : SubIs(k)
        /\ LET d == DRoot(file, pos + 1, idn, Byte(file, pos)) IN
           /\ Take(d, 1)
           /\ d.st = "ok" => /\ roots' = Append(roots, d.rec)
                             /\ UNCHANGED <<names, loads, frames, traces, classes, insts, oarrs, parrs>>
ClassDump == /\ SubIs(CLASSDUMP)
             /\ LET d == DClass(file, pos + 1, idn) IN
                /\ Take(d, 1)
                /\ d.st = "ok" => /\ classes' = (d.rec.id :> d.rec) @@ classes
                                  /\ UNCHANGED <<names, loads, frames, traces, roots, insts, oarrs, parrs>>
(* objects of one kind come in the order of their ids *)
InOrder(seq, d) == d.st # "ok" \/ seq = <<>> \/ ~LexLt(d.rec.id, seq[Len(seq)].id)
Instance == /\ SubIs(INSTDUMP)
            /\ LET d == DInst(file, pos + 1, idn) IN
               IF InOrder(insts, d)
               THEN /\ Take(d, 1)
                    /\ d.st = "ok" => /\ insts' = Append(insts, d.rec)
                                      /\ UNCHANGED <<names, loads, frames, traces, roots, classes, oarrs, parrs>>
               ELSE Refuse("order")
ObjArray == /\ SubIs(OARRDUMP)
            /\ LET d == DOArr(file, pos + 1, idn) IN
               IF InOrder(oarrs, d)
               THEN /\ Take(d, 1)
                    /\ d.st = "ok" => /\ oarrs' = Append(oarrs, d.rec)
                                      /\ UNCHANGED <<names, loads, frames, traces, roots, classes, insts, parrs>>
               ELSE Refuse("order")
PrimArray == /\ SubIs(PARRDUMP)
             /\ LET d == DPArr(file, pos + 1, idn) IN
                IF InOrder(parrs, d)
                THEN /\ Take(d, 1)
                     /\ d.st = "ok" => /\ parrs' = Append(parrs, d.rec)
                                       /\ UNCHANGED <<names, loads, frames, traces, roots, classes, insts, oarrs>>
                ELSE Refuse("order")

Finished == phase \in {"indexed", "refused"}
IndexStep ==
  \/ Header \/ TopCut \/ TopUnknown
  \/ Name \/ LoadClass \/ Frame \/ StackTrace \/ SegmentStart \/ End
  \/ SubCut \/ SubUnknown \/ SegmentEnd
  \/ Root \/ ClassDump \/ Instance \/ ObjArray \/ PrimArray

-----------------------------------------------------------------------------
(* Invariants of indexing *)
InFile == phase # "refused" => pos <= Len(file)
(* every remembered place really holds the object remembered for it *)
Placed == /\ \A i \in 1..Len(insts) : DInst(file, insts[i].off, idn).rec = insts[i]
          /\ \A i \in 1..Len(oarrs) : DOArr(file, oarrs[i].off, idn).rec = oarrs[i]
          /\ \A i \in 1..Len(parrs) : DPArr(file, parrs[i].off, idn).rec = parrs[i]
Sorted(s) == \A i \in 1..(Len(s) - 1) : ~LexLt(s[i + 1].id, s[i].id)
KeysSorted == Sorted(insts) /\ Sorted(oarrs) /\ Sorted(parrs)
(* places of different objects never overlap *)
Apart(s) == \A i \in 1..(Len(s) - 1) : s[i].data <= s[i + 1].off
ObjectsApart == Apart(insts) /\ Apart(oarrs) /\ Apart(parrs)
(* content only grows (Grows), so it is enough to look at it at the end *)
IndexInv == InFile /\ (Finished => KeysSorted /\ ObjectsApart)

(* the position never moves backwards and content only grows *)
Progress == [][phase' # "header" => pos' >= pos]_idxVars
Grows == [][phase' # "header" =>
             /\ Len(insts') >= Len(insts) /\ SubSeq(insts', 1, Len(insts)) = insts
             /\ Len(roots') >= Len(roots) /\ SubSeq(roots', 1, Len(roots)) = roots
             /\ DOMAIN names \subseteq DOMAIN names']_idxVars
=============================================================================
