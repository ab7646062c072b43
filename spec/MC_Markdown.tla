----------------------------- MODULE MC_Markdown -----------------------------
(* All small documents of up to N nodes.                                                                 *)
EXTENDS Markdown, Json
CONSTANTS N, EMIT
VARIABLES doc, ready
vars == <<doc, ready>>
Init == doc = <<>> /\ ready = FALSE
RECURSIVE Up(_, _)
Up(d, i) == IF i = 0 THEN {0} ELSE {i} \cup Up(d, d[i].p)
Kids(d, i) == SelectSeq([j \in 1..Len(d) |-> j], LAMBDA j : d[j].p = i)
Kind(d, i) == IF i = 0 THEN "doc" ELSE d[i].k
Blocks == {"h", "p", "q", "code", "ul", "ol"}
Spans == {"b", "i", "l", "st"}
\* kinds a node of kind k may have as next child after the child of kind prev ("" if none)
Allowed(d, i) ==
  LET k == Kind(d, i)
      c == Kids(d, i)
      prev == IF c = <<>> THEN "" ELSE d[Last(c)].k
      around == {d[j].k : j \in Up(d, i) \ {0}}
  IN CASE k \in {"doc", "q", "li"} -> Blocks \ (IF prev \in {"ul", "ol"} THEN {prev} ELSE {})
       [] k \in {"ul", "ol"} -> {"li"}
       [] k = "code" -> IF prev = "t" THEN {} ELSE {"t"}
       [] k \in {"h", "p"} -> (IF prev = "t" THEN Spans \cup (IF k = "p" THEN {"br"} ELSE {}) ELSE IF prev \in Spans THEN {"t"} ELSE {"t"} \cup Spans)
       [] k \in Spans -> IF prev = "t" THEN Spans \ around ELSE {"t"}
       [] OTHER -> {}
\* the end of a span is a text, and all are filled
Whole(d) == d # <<>> /\ \A i \in 1..Len(d) :
  LET c == Kids(d, i)
  IN CASE d[i].k \in {"t", "br"} -> TRUE
       [] d[i].k \in Spans -> c # <<>> /\ d[Last(c)].k = "t"
       [] d[i].k \in {"h", "p"} -> c # <<>> /\ d[Last(c)].k # "br"
       [] OTHER -> c # <<>>
Node(p, k, n) == [p |-> p, k |-> k, n |-> n, s |-> CASE k = "t" -> "w" \o ToString(Len(doc) + 1) [] k = "ul" -> "-" [] k = "st" -> "tt" [] OTHER -> ""]
Next == \/ /\ ~ready /\ Len(doc) < N
           /\ \E p \in Up(doc, Len(doc)) : \E k \in Allowed(doc, p) :
                \E n \in (CASE k = "h" -> {1, 6} [] k = "ol" -> {1, 4} [] OTHER -> {0}) : doc' = Append(doc, Node(p, k, n))
           /\ UNCHANGED ready
        \/ /\ ~ready /\ Whole(doc) /\ ready' = TRUE /\ UNCHANGED doc
Spec == Init /\ [][Next]_vars
User0 == [n \in {"default", "code", "tt"} |->
           CASE n = "default" -> [font |-> "sans-serif", size |-> 28000, color |-> "black", opacity |-> "", bold |-> "", italic |-> "",
                                  variant |-> "lining-nums", align |-> "middle", spacing |-> 1200, prio |-> 0]
             [] n = "code" -> [Bare EXCEPT !.font = "monospace", !.color = "#222", !.size = 20000]
             [] OTHER -> [Bare EXCEPT !.font = "monospace"]]
W == Texts(User0, doc)
AllRuns == FoldLeft(LAMBDA a, t : FoldLeft(LAMBDA b, r : b \o r, a, t.rows), <<>>, W)
\* all texts in order and nothing else but labels
Leaf == SelectSeq([i \in 1..Len(doc) |-> i], LAMBDA i : doc[i].k = "t")
OnlyText == FoldLeft(LAMBDA a, t : IF doc[t.i].k = "li" THEN a ELSE FoldLeft(LAMBDA b, r : FoldLeft(LAMBDA c, x : c \o x.s, b, r), a, t.rows), "", W)
Complete1 == ready => OnlyText = FoldLeft(LAMBDA a, i : a \o doc[i].s, "", Leaf)
InOrder == ready => \A a, b \in 1..Len(W) : a < b => W[a].i < W[b].i
Labels == ready => \A i \in 1..Len(doc) : doc[i].k = "li" => \E a \in 1..Len(W) : W[a].i = i /\ (a < Len(W) => W[a + 1].i > i)
\* a span changes only what it encloses
Around(i, k) == \E j \in Up(doc, i) \ {0} : doc[j].k = k
Bold == ready => \A j \in 1..Len(Leaf) : LET l == LookAt(StylesIn(User0), doc, Leaf[j]) IN
          /\ (l.bold = "T") = Around(Leaf[j], "b") /\ (l.italic = "T") = Around(Leaf[j], "i")
          /\ (l.color = "#0EBFE9") = Around(Leaf[j], "l")
          /\ (l.color = "#A9A9A9") = (Around(Leaf[j], "q") /\ ~Around(Leaf[j], "l") /\ ~Around(Leaf[j], "code"))
Emit == EMIT /\ ready => PrintT("PROG" \o ToJson(doc))
=============================================================================
