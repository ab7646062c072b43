-------------------------------- MODULE Deck --------------------------------
(* A slide deck: named slides under a name policy, external PDFs, fragments, and what a render shows. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

\* Entry: [tok, no (its number), name ("" = unnamed), ext, n (fragments or PDF pages), items (<<[id, from]>>)]
NewDeck(policy) == [policy |-> IF policy = "auto" THEN "ignore" ELSE policy, slides |-> <<>>, made |-> 0]
Policies == {"auto", "ignore", "replace", "unique"}

Named(d, name) == {i \in 1..Len(d.slides) : ~d.slides[i].ext /\ d.slides[i].name = name /\ name # ""}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
GetByName(d, name) == IF Named(d, name) = {} THEN 0 ELSE d.slides[First(Named(d, name))].tok
Without(seq, i) == SubSeq(seq, 1, i - 1) \o SubSeq(seq, i + 1, Len(seq))

\* op: [name, strname (FALSE: the name is not a string), tok, id (its first item)]
NewSlide(d, op) ==
  LET e == [tok |-> op.tok, no |-> d.made, name |-> IF op.strname THEN op.name ELSE "", ext |-> FALSE, n |-> 1,
            items |-> <<[id |-> op.id, from |-> 1]>>]
      same == Named(d, op.name)
      bad == d.policy # "ignore" /\
               \/ ~op.strname
               \/ op.name = "" /\ d.policy = "replace"
               \/ same # {} /\ d.policy = "unique"
  IN IF bad THEN [ok |-> FALSE, d |-> d]
     ELSE [ok |-> TRUE,
           d |-> [d EXCEPT !.made = @ + 1, !.slides = Append(IF d.policy = "replace" /\ same # {} THEN Without(@, First(same)) ELSE @, e)]]

AddPdf(d, op) == [d EXCEPT !.made = @ + 1, !.slides = Append(@, [tok |-> op.tok, no |-> d.made, name |-> "", ext |-> TRUE, n |-> op.pages, items |-> <<>>])]

\* a further item, in a new fragment or from the first one on
AddItem(d, tok, id, frag) ==
  [d EXCEPT !.slides = [i \in 1..Len(@) |->
     IF @[i].tok = tok
     THEN LET e == @[i] IN [e EXCEPT !.n = IF frag THEN @ + 1 ELSE @,
                                     !.items = Append(@, [id |-> id, from |-> IF frag THEN e.n + 1 ELSE 1])]
     ELSE @[i]]]

Entry(d, tok) == d.slides[CHOOSE i \in 1..Len(d.slides) : d.slides[i].tok = tok]
Selected(d, op) == IF op.hassel THEN [i \in 1..Len(op.sel) |-> Entry(d, op.sel[i])] ELSE d.slides

PagesOf(e) ==
  IF e.ext THEN [p \in 1..e.n |-> [ext |-> TRUE, tok |-> e.tok, f |-> p, ids |-> <<e.tok * 100 + p>>]]
  ELSE [f \in 1..e.n |->
         [ext |-> FALSE, tok |-> e.tok, no |-> e.no, f |-> f,
          ids |-> LET s == SelectSeq(e.items, LAMBDA x : x.from <= f) IN [i \in 1..Len(s) |-> s[i].id]]]
PageSeq(es) == FoldLeft(LAMBDA acc, e : acc \o PagesOf(e), <<>>, es)

\* The debugging mode leaves one file per page of a slide, named by the number of the slide and the fragment.
\* Files: set of [no, f, ids]; a render replaces the files of the pages it shows, the others stay.
DebugFiles(files, pages) ==
  LET own == {i \in 1..Len(pages) : ~pages[i].ext}
      new == {[no |-> pages[i].no, f |-> pages[i].f, ids |-> pages[i].ids] : i \in own}
  IN new \cup {x \in files : \A y \in new : <<x.no, x.f>> # <<y.no, y.f>>}
NumbersApart(d) == \A i, j \in 1..Len(d.slides) : i # j => d.slides[i].no # d.slides[j].no

\* Output pages: [ext, cells], a cell is [x, y (grid coordinates), ids].
Plain(pages) == [i \in 1..Len(pages) |-> [ext |-> pages[i].ext, cells |-> <<[x |-> 0, y |-> 0, ids |-> pages[i].ids]>>]]
RECURSIVE Grid(_, _, _)
Grid(pages, a, b) ==
  IF pages = <<>> THEN <<>>
  ELSE IF pages[1].ext THEN Plain(<<pages[1]>>) \o Grid(Tail(pages), a, b)
  ELSE LET own == IF \E i \in 1..Len(pages) : pages[i].ext
                  THEN (CHOOSE i \in 1..Len(pages) : pages[i].ext /\ \A j \in 1..(i - 1) : ~pages[j].ext) - 1
                  ELSE Len(pages)
           n == IF own < a * b THEN own ELSE a * b
       IN <<[ext |-> FALSE, cells |-> [i \in 1..n |-> [x |-> (i - 1) % a, y |-> (i - 1) \div a, ids |-> pages[i].ids]]]>>
          \o Grid(SubSeq(pages, n + 1, Len(pages)), a, b)
Output(pages, a, b) == IF a * b <= 1 THEN Plain(pages) ELSE Grid(pages, a, b)
=============================================================================
