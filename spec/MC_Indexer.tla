------------------------------ MODULE MC_Indexer ------------------------------
(* Dumps written item by item, next to what they say; then read by Indexer,   *)
(* whole or cut somewhere.  What was written is found again; what is cut is   *)
(* refused; so is what has a bad item in it.  Complete dumps are printed, to  *)
(* be given to the real program.                                              *)
EXTENDS Indexer, Json

CONSTANTS MaxItems,
  Cuts,  \* are dumps also cut?
  Few    \* fewer different items, to have more of them in a row
VARIABLES n, text, want, last, n_items, open, bad, mode
wVars == <<n, text, want, last, n_items, open, bad, mode>>
vars == <<wVars, idxVars>>

Id(k) == IF k < 100 THEN Zeros(n - 1) \o <<k>> ELSE <<255>> \o Zeros(n - 2) \o <<k>>
Ids == IF Few THEN {1, 200} ELSE {1, 2, 200}
JTypes == IF Few THEN {TObject, TShort} ELSE JavaTypes
PTypes == IF Few THEN {TShort, TLong} ELSE PrimTypes
RootKinds == IF Few THEN {1, 6, 8} ELSE SubRoots
U4(k) == <<0, 0, 0, k>>
U2(k) == <<0, k>>
Time == <<0, 0, 1, 139, 128, 0, 0, 1>>

Content == [names |-> Empty, loads |-> <<>>, frames |-> Empty, traces |-> Empty, roots |-> <<>>, classes |-> Empty, insts |-> <<>>, oarrs |-> <<>>, parrs |-> <<>>]

Start(k) ==
  /\ n = k /\ text = Magic \o U4(k) \o Time /\ want = Content /\ last = [i |-> <<>>, o |-> <<>>, p |-> <<>>]
  /\ n_items = 0 /\ open = FALSE /\ bad = "" /\ mode = "write"

(* the bytes of an item; one that cannot be there makes the rest meaningless  *)
Emit(b) == text' = text \o b /\ n_items' = n_items + 1
Good(w) == want' = w /\ UNCHANGED bad
Spoils(r) == UNCHANGED want /\ bad' = IF bad = "" THEN r ELSE bad
CanAdd == mode = "write" /\ n_items < MaxItems
Same == UNCHANGED <<n, mode>>

(* at top level; a segment ends where it begins *)
Top(tag, body, w) == /\ CanAdd /\ ~open /\ Emit(<<tag>> \o U4(7) \o U4(Len(body)) \o body) /\ Good(w) /\ UNCHANGED <<last, open>> /\ Same
PutName == \E k \in Ids, t \in (IF Few THEN {T("ab")} ELSE {<<>>, T("ab"), <<0, 255>>}) :
             Top(UTF8, Id(k) \o t, [want EXCEPT !.names = (Id(k) :> t) @@ @])
PutLoad == \E s \in {1, 2}, k \in Ids :
             Top(LOADCLASS, U4(s) \o Id(k) \o U4(9) \o Id(3), [want EXCEPT !.loads = Append(@, [serial |-> U4(s), cls |-> Id(k), trace |-> U4(9), name |-> Id(3)])])
PutFrame == \E k \in {1, 200}, line \in {<<0, 0, 0, 5>>, <<255, 255, 255, 253>>} :
              Top(FRAME, Id(k) \o Id(2) \o Id(3) \o Id(4) \o U4(6) \o line,
                  [want EXCEPT !.frames = (Id(k) :> [id |-> Id(k), method |-> Id(2), sig |-> Id(3), source |-> Id(4), cls |-> U4(6), line |-> line]) @@ @])
PutTrace == \E t \in {1, 2}, fs \in {<<>>, <<1>>, <<200, 1>>} :
              LET ids == [i \in 1..Len(fs) |-> Id(fs[i])]
                  flat == IF fs = <<>> THEN <<>> ELSE IF Len(fs) = 1 THEN ids[1] ELSE ids[1] \o ids[2]
              IN Top(TRACE, U4(5) \o U4(t) \o U4(Len(fs)) \o flat,
                     [want EXCEPT !.traces = (U4(t) :> [serial |-> U4(5), thread |-> U4(t), frames |-> ids]) @@ @])
BeginSegment == mode = "write" /\ ~open /\ n_items < MaxItems /\ text' = text \o <<SEGMENT>> \o U4(0) \o U4(0) /\ open' = TRUE
                /\ UNCHANGED <<want, last, n_items, bad>> /\ Same
(* back at top level there is another segment, or the end *)
NextSegment == CanAdd /\ open /\ Emit(<<SEGMENT>> \o U4(0) \o U4(0)) /\ UNCHANGED <<want, last, bad, open>> /\ Same

Sub(tag, body, w) == CanAdd /\ open /\ Emit(<<tag>> \o body) /\ Good(w) /\ UNCHANGED open /\ Same
PutRoot == \E kind \in RootKinds, k \in {1, 200} :
             LET a == CASE kind = 1 -> Id(8) [] kind \in {2, 3, 8} -> U4(4) [] OTHER -> <<>>
                 b == IF kind \in {2, 3, 8} THEN <<255, 255, 255, 255>> ELSE <<>>
                 more == IF kind \in {4, 6} THEN U4(3) ELSE <<>>
             IN Sub(kind, Id(k) \o a \o b \o more, [want EXCEPT !.roots = Append(@, [kind |-> kind, obj |-> Id(k), a |-> a, b |-> b])]) /\ UNCHANGED last
Val(ty) == [i \in 1..Width(ty, n) |-> 60 + i]
PutClass ==
  \E k \in {1, 200}, ty \in JTypes, m \in {0, 1, 2} :
    LET v == Canon(ty, Val(ty))
        pool == IF m = 1 THEN <<[key |-> U2(7), ty |-> ty, val |-> v]>> ELSE <<>>
        stat == IF m = 2 THEN <<[key |-> Id(5), ty |-> ty, val |-> v]>> ELSE <<>>
        fld == IF m = 0 THEN <<>> ELSE <<[name |-> Id(6), ty |-> ty]>>
    IN (m = 0 => ty = TObject) /\
       Sub(CLASSDUMP, Id(k) \o U4(1) \o Id(2) \o Id(0) \o Id(4) \o Id(5) \o Id(0) \o Id(0) \o U4(24)
                      \o U2(Len(pool)) \o (IF m = 1 THEN U2(7) \o <<ty>> \o Val(ty) ELSE <<>>)
                      \o U2(Len(stat)) \o (IF m = 2 THEN Id(5) \o <<ty>> \o Val(ty) ELSE <<>>)
                      \o U2(Len(fld)) \o (IF m > 0 THEN Id(6) \o <<ty>> ELSE <<>>),
           [want EXCEPT !.classes = (Id(k) :> [id |-> Id(k), trace |-> U4(1), super |-> Id(2), loader |-> Id(0), signers |-> Id(4), domain |-> Id(5),
                                               size |-> U4(24), pool |-> pool, statics |-> stat, fields |-> fld]) @@ @]) /\ UNCHANGED last

(* objects come in the order of their ids, or the dump is bad *)
Object(kind, tag, id, body, w) ==
  IF last[kind] # <<>> /\ LexLt(id, last[kind])
  THEN CanAdd /\ open /\ Emit(<<tag>> \o body) /\ Spoils("order") /\ UNCHANGED <<open, last>> /\ Same
  ELSE Sub(tag, body, w) /\ last' = [last EXCEPT ![kind] = id]
Off == Len(text) + 1
Payload(k) == [i \in 1..k |-> 35] \* may look like something else
PutInst == \E k \in Ids, m \in {0, 3} :
             Object("i", INSTDUMP, Id(k), Id(k) \o U4(1) \o Id(2) \o U4(m) \o Payload(m),
                    [want EXCEPT !.insts = Append(@, [id |-> Id(k), trace |-> U4(1), cls |-> Id(2), n |-> m, off |-> Off, data |-> Off + 2 * n + 8])])
PutOArr == \E k \in Ids, m \in {0, 2} :
             Object("o", OARRDUMP, Id(k), Id(k) \o U4(1) \o U4(m) \o Id(2) \o Payload(m * n),
                    [want EXCEPT !.oarrs = Append(@, [id |-> Id(k), trace |-> U4(1), cls |-> Id(2), n |-> m, off |-> Off, data |-> Off + 2 * n + 8])])
PutPArr == \E k \in {1, 200}, ty \in PTypes, m \in {0, 2} :
             (m = 0 => ty \in {TShort, TLong}) /\
             Object("p", PARRDUMP, Id(k), Id(k) \o U4(1) \o U4(m) \o <<ty>> \o Payload(m * Width(ty, n)),
                    [want EXCEPT !.parrs = Append(@, [id |-> Id(k), trace |-> U4(1), ty |-> ty, n |-> m, off |-> Off, data |-> Off + n + 9])])

(* bad items; what follows them is long enough to be anything *)
Spoil(b) == CanAdd /\ bad = "" /\ Emit(b) /\ Spoils("malformed") /\ UNCHANGED <<last, open>> /\ Same
PutBad ==
  \/ ~open /\ \E tag \in (IF Few THEN {3} ELSE {0, 3, 6, 7, 10, 14, 29, 255}) : Spoil(<<tag>> \o U4(0) \o U4(0))
  \/ ~open /\ \E d \in {0, n - 1} : Spoil(<<UTF8>> \o U4(0) \o U4(d) \o Zeros(n))
  \/ ~open /\ \E d \in {0, 7 + 2 * n, 9 + 2 * n} : Spoil(<<LOADCLASS>> \o U4(0) \o U4(d) \o Zeros(9 + 2 * n))
  \/ ~open /\ \E d \in {4 * n, 7 + 4 * n, 9 + 4 * n} : Spoil(<<FRAME>> \o U4(0) \o U4(d) \o Zeros(9 + 4 * n))
  \/ ~open /\ \E d \in {8, 12, 13 + n} : Spoil(<<TRACE>> \o U4(0) \o U4(d) \o U4(1) \o U4(1) \o U4(1) \o Zeros(n + 1))
  \/ open /\ \E tag \in (IF Few THEN {9} ELSE {0, 9, 16, 31, 36, 254}) : Spoil(<<tag>> \o Zeros(4 * n))
  \/ open /\ \E ty \in (IF Few THEN {2} ELSE {0, 1, 2, 3, 12, 255}) : Spoil(<<PARRDUMP>> \o Id(255) \o U4(1) \o U4(0) \o <<ty>>)
  \/ open /\ \E ty \in (IF Few THEN {3} ELSE {0, 1, 3, 12}) : Spoil(<<CLASSDUMP>> \o Zeros(7 * n + 8) \o U2(1) \o U2(1) \o <<ty>> \o Zeros(16))
  \/ open /\ \E ty \in (IF Few THEN {3} ELSE {0, 1, 3, 12}) : Spoil(<<CLASSDUMP>> \o Zeros(7 * n + 8) \o U2(0) \o U2(1) \o Id(1) \o <<ty>> \o Zeros(16))
  \/ open /\ \E ty \in (IF Few THEN {3} ELSE {0, 1, 3, 12}) : Spoil(<<CLASSDUMP>> \o Zeros(7 * n + 8) \o U2(0) \o U2(0) \o U2(1) \o Id(1) \o <<ty>> \o Zeros(16))

Written == text \o <<ENDTAG>> \o U4(0) \o U4(0)
Read == /\ mode = "write" /\ mode' = "whole" /\ text' = Written
        /\ RestartIndexing(Written) /\ UNCHANGED <<n, want, last, n_items, open, bad>>
ReadCut == /\ Cuts /\ mode = "write" /\ bad = "" /\ mode' = "cut" /\ text' = Written
           /\ \E k \in 0..(Len(Written) - 1) : RestartIndexing(SubSeq(Written, 1, k))
           /\ UNCHANGED <<n, want, last, n_items, open, bad>>

Write == PutName \/ PutLoad \/ PutFrame \/ PutTrace \/ BeginSegment \/ NextSegment \/ PutRoot \/ PutClass \/ PutInst \/ PutOArr \/ PutPArr \/ PutBad
Init == (\E k \in {4, 8} : Start(k)) /\ StartIndexing(<<>>)
Next == \/ (Write \/ (n_items = MaxItems /\ ReadCut)) /\ (mode = "write" /\ mode' = "write" => UNCHANGED idxVars)
        \/ Read
        \/ mode \in {"whole", "cut"} /\ IndexStep /\ UNCHANGED wVars
Spec == Init /\ [][Next]_vars

Over == mode \in {"whole", "cut"} /\ Finished
FoundAgain == Over /\ mode = "whole" /\ bad = "" =>
  /\ phase = "indexed" /\ pos = Len(text) /\ idn = n /\ time = Time
  /\ names = want.names /\ loads = want.loads /\ frames = want.frames /\ traces = want.traces /\ roots = want.roots /\ classes = want.classes
  /\ insts = want.insts /\ oarrs = want.oarrs /\ parrs = want.parrs
CutRefused == Over /\ mode = "cut" => phase = "refused" /\ why = "truncated"
BadRefused == Over /\ mode = "whole" /\ bad # "" => phase = "refused" /\ why = bad
Sound == IndexInv /\ (Over => Placed)
Printed == Over /\ mode = "whole" => PrintT(<<"DUMP", ToJson(text)>>)
=============================================================================
