------------------------------ MODULE MC_Markup ------------------------------
(* Documents as the reports are, of a few items with all their variants, read *)
(* token by token: they are accepted; with any of their tags missing (Drop)   *)
(* they are refused; and so they are if a template is wrong (Variant): a tag  *)
(* is not closed in one of the branches, a row lacks a cell when there is     *)
(* nothing to show, text of the dump is taken for markup.                     *)
EXTENDS Markup, TLC

CONSTANTS Items, Deep, Variant, Drop
VARIABLES doc, pos, state
vars == <<doc, pos, state>>

O(n) == <<"open", n, <<>>, 1>>
O2(n) == <<"open", n, <<>>, 2>>
C(n) == <<"close", n, <<>>, 0>>
Txt == <<"text", "", <<>>, 0>>
Bl == <<"blank", "", <<>>, 0>>
E(n, body) == <<O(n)>> \o body \o <<C(n)>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}

Link == <<"open", "link", <<<<"rel", "">>, <<"href", "data:">>>>, 1>>
Doc(body) == <<<<"decl", "doctype html", <<>>, 0>>, Bl>> \o E("html", E("head", <<O("meta"), Link>> \o E("title", <<Txt>>) \o E("style", <<Txt>>)) \o <<Bl>> \o E("body", E("h1", <<Txt>>) \o body)) \o <<Bl>>

(* text of the dump: may be empty, may look like markup *)
Texts == {"", "x", "<b>"}
T(t) == IF t = "" THEN <<>> ELSE IF t = "<b>" /\ Variant = "escape" THEN <<O("b")>> ELSE <<Txt>>

Frame(f) == E("p", E("span", T(f.text)) \o <<Txt>> \o E("span", <<Txt>>)) \o Flat([i \in 1..f.locals |-> E("p", E("span", <<Txt>>))])
Thread(t) == E("div", E("p", <<Txt>> \o (IF t.daemon /\ Variant = "branch" THEN <<O("span"), Txt>> ELSE IF t.daemon THEN E("span", <<Txt>>) ELSE <<>>)) \o Flat([i \in 1..Len(t.frames) |-> Frame(t.frames[i])]))
Row(r) == E("tr", E("td", T(r.a)) \o (IF r.b = "" /\ Variant = "row" THEN <<>> ELSE E("td", T(r.b))))
Section(s) == E("tr", <<O2("td")>> \o E("h3", <<Txt>>) \o <<C("td")>>) \o Flat([i \in 1..Len(s) |-> Row(s[i])])

Bodies ==
  {Flat([i \in 1..Len(ts) |-> Thread(ts[i])]) : ts \in Seqs([daemon : BOOLEAN, frames : Seqs([text : Texts, locals : 0..1], Deep)], Items)}
  \cup {E("table", E("tr", E("th", <<Txt>>) \o E("th", <<Txt>>)) \o Flat([i \in 1..Len(ss) |-> Section(ss[i])])) : ss \in Seqs(Seqs([a : Texts, b : Texts], Deep), Items)}

Without(d, i) == SubSeq(d, 1, i - 1) \o SubSeq(d, i + 1, Len(d))
Needed(t) == t[1] = "close" \/ (t[1] = "open" /\ t[2] \notin Void) \/ t[1] = "decl"

Init == /\ pos = 1 /\ state = Fresh
        /\ \E b \in Bodies : LET d == Doc(b) IN
             IF Drop THEN \E i \in {i \in 1..Len(d) : Needed(d[i])} : doc = Without(d, i) ELSE doc = d
Next == pos <= Len(doc) /\ state' = Feed(state, doc[pos]) /\ pos' = pos + 1 /\ UNCHANGED doc
Spec == Init /\ [][Next]_vars
AtEnd == pos > Len(doc)
Accepted == AtEnd => Complete(state)
Refused == AtEnd => ~Complete(state)
(* as long as nothing is wrong, what is open is a path in the tree of the document *)
Path == state.why = "" => \A i \in 1..Len(state.stack) : Fits(state.stack[i].name, IF i = 1 THEN "" ELSE state.stack[i - 1].name)
=============================================================================
