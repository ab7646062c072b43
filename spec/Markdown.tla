------------------------------ MODULE Markdown ------------------------------
(* What a Markdown document shows.  A document is a tree of nodes in document order,                    *)
(*   [p: parent (0: the document), k: kind, n: number, s: string]                                       *)
(* blocks: h (heading of level n), p (paragraph), q (quote), code (s: language), ul (s: bullet),         *)
(* ol (n: start), li; inside of text: t (the characters s), br (line break), b, i, l (bold, italic,      *)
(* link), st (inline style s).                                                                           *)
EXTENDS Text

Over1(f, g) == f @@ g   \* f takes precedence
\* the styles of the document: those of the parent box, and the predefined ones it lacks
Bare == [font |-> "", size |-> -1, color |-> "", opacity |-> "", bold |-> "", italic |-> "", variant |-> "",
         align |-> "left", spacing |-> -1, prio |-> 0]
Predefined == [n \in {"md-paragraph", "md-bold", "md-italic", "md-link", "md-blockquote", "md-h1", "md-h2", "md-h3", "md-h4", "md-h5", "md-h6"} |->
   CASE n = "md-bold" -> [Bare EXCEPT !.bold = "T"]
     [] n = "md-italic" -> [Bare EXCEPT !.italic = "T"]
     [] n = "md-link" -> [Bare EXCEPT !.color = "#0EBFE9"]
     [] n = "md-blockquote" -> [Bare EXCEPT !.color = "#A9A9A9"]
     [] n = "md-h1" -> [Bare EXCEPT !.size = 40000]
     [] n = "md-h2" -> [Bare EXCEPT !.size = 38000]
     [] n = "md-h3" -> [Bare EXCEPT !.size = 36000]
     [] n = "md-h4" -> [Bare EXCEPT !.size = 34000]
     [] n = "md-h5" -> [Bare EXCEPT !.size = 32000]
     [] n = "md-h6" -> [Bare EXCEPT !.size = 30000]
     [] OTHER -> Bare]
StylesIn(user) == Over1(user, Predefined)
Heading(n) == "md-h" \o ToString(n)
SpanStyle(x) == CASE x.k = "b" -> "md-bold" [] x.k = "i" -> "md-italic" [] x.k = "l" -> "md-link" [] OTHER -> x.s

IsText(x) == x.k \in {"h", "p", "code"}
RECURSIVE Above(_, _, _)
\* the nodes of the kinds K that enclose node i, outermost first
Above(doc, i, K) == IF i = 0 THEN <<>>
                    ELSE Above(doc, doc[i].p, K) \o (IF doc[i].k \in K THEN <<i>> ELSE <<>>)
InText(doc, i) == LET a == Above(doc, i, {"h", "p", "code"}) IN IF a = <<>> THEN 0 ELSE a[1]

\* the default style at node i: every enclosing quote composes the style of quotes
DefaultAt(styles, doc, i) == FoldLeft(LAMBDA d, _q : Compose(d, styles["md-blockquote"]), styles["default"], Above(doc, i, {"q"}))
BaseOf(styles, doc, i) ==
  LET n == CASE doc[i].k = "h" -> Heading(doc[i].n) [] doc[i].k = "p" -> "md-paragraph" [] OTHER -> "code"
  IN Compose(DefaultAt(styles, doc, i), styles[n])
LookAt(styles, doc, i) ==
  LET spans == Above(doc, doc[i].p, {"b", "i", "l", "st"})
  IN Look(Eff(BaseOf(styles, doc, InText(doc, i)), [j \in 1..Len(spans) |-> styles[SpanStyle(doc[spans[j]])]]))

Leaves(doc, i) == SelectSeq([j \in 1..Len(doc) |-> j], LAMBDA j : doc[j].k \in {"t", "br"} /\ InText(doc, j) = i)
\* the rows of a text: runs [s, l]; neighbours of one look are one run; empty rows are left out
AddRun(row, r) == IF row # <<>> /\ Last(row).l = r.l THEN [row EXCEPT ![Len(row)].s = @ \o r.s] ELSE Append(row, r)
RowsOf(styles, doc, i) ==
  SelectSeq(FoldLeft(LAMBDA a, j : IF doc[j].k = "br" THEN Append(a, <<>>)
                                   ELSE [a EXCEPT ![Len(a)] = AddRun(@, [s |-> doc[j].s, l |-> LookAt(styles, doc, j)])],
                     <<<<>>>>, Leaves(doc, i)), LAMBDA r : r # <<>>)

ItemNo(doc, i) == Cardinality({j \in 1..i : doc[j].k = "li" /\ doc[j].p = doc[i].p})
Label(styles, doc, i) ==
  LET li == doc[doc[i].p]
      s == IF li.k = "ul" THEN li.s ELSE ToString(li.n + ItemNo(doc, i) - 1) \o "."
  IN <<<<[s |-> s, l |-> Look(DefaultAt(styles, doc, i))]>>>>
\* all texts in order: [i: node, plain: only its characters are of interest, rows]
Texts(user, doc) ==
  LET styles == StylesIn(user)
      q == SelectSeq([i \in 1..Len(doc) |-> i], LAMBDA i : IsText(doc[i]) \/ doc[i].k = "li")
      all == [j \in 1..Len(q) |-> [i |-> q[j], plain |-> doc[q[j]].k = "code" /\ doc[q[j]].s # "",
                                   rows |-> IF doc[q[j]].k = "li" THEN Label(styles, doc, q[j]) ELSE RowsOf(styles, doc, q[j])]]
  IN SelectSeq(all, LAMBDA t : t.rows # <<>>)
=============================================================================
