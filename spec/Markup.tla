-------------------------------- MODULE Markup --------------------------------
(* HTML documents, token by token: what is open, and whether the document is *)
(* still one that a browser shows as it was meant.  A token is                *)
(* <<what, name, attributes, columns>>: what is "open", "close", "text",      *)
(* "blank" (text of blanks), "decl", "comment" or "other"; attributes are     *)
(* pairs; columns is the number of columns of a cell.                         *)
EXTENDS Naturals, Sequences, FiniteSets

Void == {"meta", "link", "br", "hr", "img", "input"}
Once == {"html", "head", "title", "body"}
Rows == {"table", "thead", "tbody", "tfoot"}
Cells == {"td", "th"}
Block == {"p", "div", "table", "h1", "h2", "h3", "h4", "h5", "h6", "ul", "ol", "section", "main", "article", "pre"}
(* where nothing but what belongs there may stand *)
Strict == {"", "html", "head"} \cup Rows \cup {"tr"}
NoBlock == {"p", "span", "h1", "h2", "h3", "h4", "h5", "h6", "b", "i", "em", "code"}

Fresh == [stack |-> <<>>, done |-> {}, declared |-> FALSE, titled |-> FALSE, why |-> ""]
Top(s) == IF s.stack = <<>> THEN [name |-> "", row |-> 0, columns |-> 0] ELSE s.stack[Len(s.stack)]
Wrong(s, why) == [s EXCEPT !.why = IF @ = "" THEN why ELSE @]
InTable(s) == CHOOSE i \in 1..Len(s.stack) : s.stack[i].name = "table" /\ \A j \in (i + 1)..Len(s.stack) : s.stack[j].name # "table"

(* may an element stand where we are? *)
Fits(name, at) ==
  CASE name = "html" -> at = ""
    [] name \in {"head", "body"} -> at = "html"
    [] name \in {"title", "style", "meta", "link"} -> at = "head"
    [] name \in Rows \ {"table"} -> at = "table"
    [] name = "tr" -> at \in Rows
    [] name \in Cells -> at = "tr"
    [] name \in Block -> at \notin Strict \cup NoBlock
    [] OTHER -> at \notin Strict
(* the document runs nothing and loads nothing *)
Quiet(name, attrs) == /\ name \notin {"script", "iframe", "object", "embed", "base", "form"}
                      /\ \A i \in 1..Len(attrs) : /\ attrs[i][1] # "on"
                                                  /\ attrs[i][1] \in {"href", "src"} => attrs[i][2] \in {"data:", "#"}

Open(s, name, attrs, columns) ==
  LET at == Top(s).name
      cell == name \in Cells /\ at = "tr"
      s1 == IF cell THEN [s EXCEPT !.stack[Len(s.stack)].row = @ + columns] ELSE s
  IN IF ~Fits(name, at) THEN Wrong(s, "misplaced " \o name)
     ELSE IF name \in Once /\ name \in s.done THEN Wrong(s, "second " \o name)
     ELSE IF ~Quiet(name, attrs) THEN Wrong(s, "active or foreign content")
     ELSE IF name \in Void THEN s1
     ELSE [s1 EXCEPT !.stack = Append(@, [name |-> name, row |-> 0, columns |-> 0])]

Close(s, name) ==
  LET t == Top(s)
      up == [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1), !.done = @ \cup ({name} \cap Once)]
  IN IF s.stack = <<>> \/ t.name # name THEN Wrong(s, "unbalanced " \o name)
     ELSE IF name # "tr" THEN up
     ELSE LET i == InTable(s) c == s.stack[i].columns IN
          IF c = 0 THEN [up EXCEPT !.stack[i].columns = t.row]
          ELSE IF c = t.row THEN up ELSE Wrong(up, "row with other columns")

Feed(s, t) ==
  CASE t[1] = "decl" -> IF s.declared \/ s.stack # <<>> \/ s.done # {} \/ t[2] # "doctype html" THEN Wrong(s, "declaration") ELSE [s EXCEPT !.declared = TRUE]
    [] t[1] = "open" -> IF ~s.declared THEN Wrong(s, "no declaration") ELSE Open(s, t[2], t[3], t[4])
    [] t[1] = "close" -> Close(s, t[2])
    [] t[1] = "text" -> IF Top(s).name \in Strict THEN Wrong(s, "misplaced text") ELSE [s EXCEPT !.titled = @ \/ Top(s).name = "title"]
    [] t[1] \in {"blank", "comment"} -> s
    [] OTHER -> Wrong(s, "no markup")

Complete(s) == s.why = "" /\ s.stack = <<>> /\ Once \subseteq s.done /\ s.titled
=============================================================================
