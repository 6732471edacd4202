------------------------------ MODULE MC_Stacks ------------------------------
(* Threads that are started, call methods and return from them, and hold      *)
(* objects in local variables or through JNI, until a dump is taken.  The     *)
(* report shows the threads by id, each with its stack, the method that was   *)
(* called last first, and what each of its frames holds below it.             *)
EXTENDS Jvm

CONSTANTS MaxFrames, MaxHeld, MaxRoots

VARIABLES
  started,  \* the threads that run, in the order of their start
  stack,    \* their stacks, the method called last at the end
  other,    \* roots that are in no frame
  late      \* are the roots of the threads written after the others?
vmVars == <<started, stack, other, late>>
View == <<vmVars, mode, phase, pos>>

Threads == {1, 2}
Tid(t) == IF t = 1 THEN 9 ELSE 3
ThreadName(t) == IF t = 1 THEN T("main") ELSE T("x")
Status(t) == IF t = 1 THEN 5 ELSE 1025
Prio(t) == 4 + t
(* [method, descriptor, source, line], and the line in the report *)
Methods == {1, 2}
Method(m) == IF m = 1 THEN [name |-> T("run"), sig |-> T("(I[J)V"), source |-> NameId(T("A.java")), line |-> U4(7), text |-> T("void p.C.run(int, long[]) A.java:7")]
             ELSE [name |-> T("go"), sig |-> T("()Lp/C;"), source |-> Id(0), line |-> <<255, 255, 255, 253>>, text |-> T("p.C p.C.go()")]
(* what can be held: [id, shown as] *)
Things == {[id |-> 210, text |-> T("local p.C")], [id |-> 211, text |-> T("local int[]")], [id |-> 212, text |-> T("local p.C[][]")], [id |-> 103, text |-> T("local class p.C")]}

ThreadClass == [id |-> 102, super |-> 100, name |-> T("java/lang/Thread"), size |-> 48, statics |-> <<>>,
                fields |-> <<[name |-> T("daemon"), ty |-> TBoolean], [name |-> T("name"), ty |-> TObject], [name |-> T("priority"), ty |-> TInt],
                             [name |-> T("tid"), ty |-> TLong], [name |-> T("threadStatus"), ty |-> TInt]>>]
PlainClass(i, n) == [id |-> i, super |-> 100, name |-> n, size |-> 8, statics |-> <<>>, fields |-> <<>>]
AllClasses == <<ObjectClass, StringClass, ThreadClass, PlainClass(103, T("p/C")), PlainClass(104, T("[[Lp/C;"))>>
MyPool == <<T("java/lang/Object"), T("java/lang/String"), T("java/lang/Thread"), T("p/C"), T("[[Lp/C;"), T("coder"), T("value"), T("daemon"), T("name"),
            T("priority"), T("tid"), T("threadStatus"), T("run"), T("(I[J)V"), T("go"), T("()Lp/C;"), T("A.java")>>

Frames == {<<t, k>> \in Threads \X (1..MaxFrames) : k <= Len(stack[t])}
RECURSIVE Total(_, _)
Total(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Total(S \ {x}, f)
AllFrames == Total(Threads, [t \in Threads |-> Len(stack[t])])
AllHeld == Total(Frames, [f \in Frames |-> Len(stack[f[1]][f[2]].held)])
Runs(t) == \E i \in 1..Len(started) : started[i] = t

Start(t) == ~Runs(t) /\ started' = Append(started, t) /\ UNCHANGED <<stack, other, late>>
Call(t, m) == /\ Runs(t) /\ AllFrames < MaxFrames
              /\ stack' = [stack EXCEPT ![t] = Append(@, [m |-> m, held |-> <<>>])] /\ UNCHANGED <<started, other, late>>
Return(t) == stack[t] # <<>> /\ stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED <<started, other, late>>
(* in a local variable (3), or by native code of the frame (2) *)
Hold(t, kind, x) == /\ stack[t] # <<>> /\ AllHeld < MaxHeld
                    /\ stack' = [stack EXCEPT ![t][Len(stack[t])].held = Append(@, [kind |-> kind, what |-> x])] /\ UNCHANGED <<started, other, late>>
(* native code of a thread that is in no frame, a global reference, a monitor *)
Keep(r) == Len(other) < MaxRoots /\ other' = Append(other, r) /\ UNCHANGED <<started, stack, late>>
Others == {RootRec(2, 210, U4(1) \o <<255, 255, 255, 255>>), RootRec(1, 210, Id(5)), RootRec(7, 211, <<>>), RootRec(3, 211, U4(77) \o U4(0))}

(* the dump: frames are numbered from the one called last *)
FrameId(t, k) == 500 + 20 * t + k
Depth(t, k) == Len(stack[t]) - k
HeldRecs(t) == Cat([k \in 1..Len(stack[t]) |-> Each(stack[t][k].held, LAMBDA h : RootRec(h.kind, h.what.id, U4(t) \o U4(Depth(t, k))))])
Tops == NameRecs \o Each(AllClasses, LoadRec)
        \o Each(started, LAMBDA t : Cat([k \in 1..Len(stack[t]) |-> LET m == Method(stack[t][k].m) IN FrameRec(FrameId(t, k), m.name, m.sig, m.source, 103, m.line)]))
        \o Each(started, LAMBDA t : TraceRec(t, [k \in 1..Len(stack[t]) |-> FrameId(t, Depth(t, k) + 1)]))
ThreadRec(t) == InstRec(200 + t, 102, <<t - 1>> \o Id(300 + t) \o U4(Prio(t)) \o U8(Tid(t)) \o U4(Status(t)))
Ascending == SortSeq(started, LAMBDA a, b : a < b)
ThreadRoot(t) == RootRec(8, 200 + t, U4(t) \o U4(t))
HeldRoots == Cat(other) \o Each(started, HeldRecs)
Subs == Each(AllClasses, ClassRec)
        \o (IF late THEN HeldRoots \o Each(started, ThreadRoot) ELSE Each(started, ThreadRoot) \o HeldRoots)
        \o Each(Ascending, ThreadRec) \o InstRec(210, 103, <<>>) \o Each(Ascending, LAMBDA t : StringRec(300 + t, 400 + t))
        \o PArrRec(211, TInt, 1, U4(5)) \o Each(Ascending, LAMBDA t : TextRec(400 + t, ThreadName(t)))
        \o OArrRec(212, 104, <<0>>)

Init == started = <<>> /\ stack = [t \in Threads |-> <<>>] /\ other = <<>> /\ late \in BOOLEAN /\ StartVm
Run == \/ \E t \in Threads : Start(t) \/ Return(t) \/ (\E m \in Methods : Call(t, m)) \/ (\E x \in Things, kind \in {2, 3} : Hold(t, kind, x))
       \/ \E r \in Others : Keep(r)
Next == (Run /\ Running) \/ (TakeDump(DumpOf(U8(5), Tops, Subs)) /\ UNCHANGED vmVars) \/ (Reading /\ UNCHANGED vmVars)
Spec == Init /\ [][Next]_<<vmVars, mode, more, idxVars>>

-----------------------------------------------------------------------------
Texts(held) == [i \in 1..Len(held) |-> held[i].what.text]
WantStack(t) == [k \in 1..Len(stack[t]) |-> LET f == stack[t][Depth(t, k) + 1] IN [text |-> Method(f.m).text, locals |-> Texts(f.held)]]
ById2 == SortSeq(started, LAMBDA a, b : Tid(a) < Tid(b))
Head2(t) == T("\"") \o ThreadName(t) \o T("\", ID=") \o DigitsOf(Tid(t)) \o T(", prio=") \o DigitsOf(Prio(t)) \o T(", status=")
            \o (IF t = 1 THEN T("RUNNABLE") ELSE T("BLOCKED")) \o (IF t = 2 THEN T(" (daemon)") ELSE <<>>)
Want == [i \in 1..Len(started) |-> LET t == ById2[i] IN [head |-> Head2(t), deviant |-> <<>>, name |-> ThreadName(t), stack |-> WantStack(t)]]
ShownAsItWas == IsRead => ThreadsOk /\ FramesOk /\ LocalsOk /\ ThreadDump = Want
=============================================================================
