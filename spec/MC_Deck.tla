------------------------------- MODULE MC_Deck -------------------------------
(* All short histories of a deck; the last step is always a render of a grid and selection.          *)
EXTENDS Deck, Json
CONSTANTS DEPTH, POLICY, FAILS   \* FAILS: with calls that cannot be carried out
VARIABLES d, hist, nid
vars == <<d, hist, nid>>
Names == {"a", "b", ""}

Init == d = NewDeck(POLICY) /\ hist = <<>> /\ nid = 1
Do(op, e) == d' = e /\ hist' = Append(hist, op) /\ nid' = nid + 1
Build ==
  /\ Len(hist) < DEPTH
  /\ \/ \E n \in Names, deco \in BOOLEAN, s \in BOOLEAN :
          /\ (~s => n = "a") /\ (deco => n # "" /\ s)
          /\ LET op == [op |-> "new", name |-> n, strname |-> s, deco |-> deco, tok |-> nid, id |-> nid]
             IN Do(op, NewSlide(d, op).d)
     \/ \E p \in {1, 2} : LET op == [op |-> "pdf", tok |-> nid, pages |-> p] IN Do(op, AddPdf(d, op))
     \/ \E i \in 1..Len(d.slides) : ~d.slides[i].ext /\
          LET op == [op |-> "item", tok |-> d.slides[i].tok, id |-> nid, frag |-> TRUE]
          IN Do(op, AddItem(d, op.tok, nid, TRUE))
     \/ FAILS /\ \E h \in {"view_box", "none", "per_page", "merger", "post", "dir", "foreign", "missing-pdf", "broken-pdf", "export-ext"} :
          /\ (h \notin {"view_box", "none", "per_page"}) => d.slides # <<>>
          /\ Do([op |-> "fail", how |-> h], d)
Next == Build
Spec == Init /\ [][Next]_vars

\* D02
Inv_Names == POLICY \in {"unique", "replace"} =>
  \A i, j \in 1..Len(d.slides) : (i # j /\ ~d.slides[i].ext /\ ~d.slides[j].ext /\ d.slides[i].name # "") =>
     d.slides[i].name # d.slides[j].name
\* D06: no two slides share their debug files
Inv_Numbers == NumbersApart(d)
Act_Rejected == [][LET op == hist'[Len(hist')] IN (op.op = "new" /\ ~NewSlide(d, op).ok) => d' = d]_vars
Act_Last == [][LET op == hist'[Len(hist')]
               IN (op.op = "new" /\ NewSlide(d, op).ok) => d'.slides[Len(d'.slides)].tok = op.tok]_vars
\* D07: the deck is the one of the calls that were carried out
Redo(e, op) == CASE op.op = "new" -> NewSlide(e, op).d
                 [] op.op = "pdf" -> AddPdf(e, op)
                 [] op.op = "item" -> AddItem(e, op.tok, op.id, op.frag)
Inv_D07 == d = FoldLeft(Redo, NewDeck(POLICY), SelectSeq(hist, LAMBDA op : op.op # "fail"))
\* D01/D03: every grid shows every page exactly once, in order, full except at the end or before a PDF page
Flat(out) == FoldLeft(LAMBDA acc, p : acc \o [i \in 1..Len(p.cells) |-> p.cells[i].ids], <<>>, out)
Inv_Grid == \A a, b \in 1..3 :
  LET pages == PageSeq(d.slides)
      out == Output(pages, a, b)
  IN /\ Flat(out) = [i \in 1..Len(pages) |-> pages[i].ids]
     /\ \A k \in 1..Len(out) : /\ Len(out[k].cells) \in 1..(a * b)
                               /\ \A i, j \in 1..Len(out[k].cells) :
                                    i < j => out[k].cells[i].y * a + out[k].cells[i].x < out[k].cells[j].y * a + out[k].cells[j].x
                               /\ (~out[k].ext /\ Len(out[k].cells) < a * b) => (k = Len(out) \/ out[k + 1].ext)
Emit == Len(hist) = DEPTH => PrintT("PROG" \o ToJson(hist))
=============================================================================
