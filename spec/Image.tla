------------------------------- MODULE Image -------------------------------
(* Images with fragments on one slide.  A file is a tree of nodes in document order; a node is          *)
(*   [p: parent (0: the image itself), has: carries a label, lab: its characters]                       *)
(* (a piece of text is a node without label).  A label "name**annotation" restricts a node and all that *)
(* it encloses to the image fragments the annotation names.                                             *)
EXTENDS Selector, SequencesExt

Stars(l) == {i \in 1..(Len(l) - 1) : l[i] = "*" /\ l[i + 1] = "*"}
Annotated(n) == n.has /\ Stars(n.lab) # {}
Annotation(n) ==
  LET i == CHOOSE i \in Stars(n.lab) : \A j \in Stars(n.lab) : i <= j
      r == SubSeq(n.lab, i + 2, Len(n.lab))
      e == Stars(r)
  IN IF e = {} THEN r ELSE SubSeq(r, 1, (CHOOSE j \in e : \A h \in e : j <= h) - 1)
SelectorOf(n) == IF Annotated(n) THEN SelOf([t |-> "str", s |-> Annotation(n)], 0) ELSE SelOf([t |-> "none"], 0)
WellAnnotated(tree) == \A i \in 1..Len(tree) : SelectorOf(tree[i]).ok

RECURSIVE InFragment(_, _, _)
InFragment(tree, i, k) == \/ i = 0
                          \/ Includes(SelectorOf(tree[i]), k) /\ InFragment(tree, tree[i].p, k)
Nodes(tree) == [i \in 1..Len(tree) |-> i]
ShownIn(tree, k) == SelectSeq(Nodes(tree), LAMBDA i : InFragment(tree, i, k))
FragmentsOf(tree) == SetMax({1} \cup {Named(SelectorOf(tree[i])) : i \in 1..Len(tree)})

\* How an image is used: [begin, mode: "frags" | "all" | "select", list (0: none)]
Needs(tree, u) == u.begin - 1 + CASE u.mode = "frags" -> FragmentsOf(tree)
                                  [] u.mode = "all" -> 1
                                  [] OTHER -> Len(u.list)
\* what is shown of it in slide fragment f, or NOTHING
NOTHING == <<-1>>
Pick(tree, u, f) ==
  LET k == f - u.begin + 1
  IN CASE k < 1 -> NOTHING
       [] u.mode = "all" -> Nodes(tree)
       [] u.mode = "select" -> IF k > Len(u.list) \/ u.list[k] < 1 THEN NOTHING ELSE ShownIn(tree, u.list[k])
       [] OTHER -> ShownIn(tree, k)

\* A slide: boxes with fragment selectors, images in them
Slide0 == [max |-> 1, boxes |-> <<[par |-> 0, sel |-> SelOf([t |-> "none"], 0)]>>, imgs |-> <<>>]
Max2(a, b) == IF a > b THEN a ELSE b
AddBox(st, par, v) == LET sel == SelOf(v, st.max)
                      IN [st EXCEPT !.boxes = Append(@, [par |-> par, sel |-> sel]), !.max = Max2(@, Named(sel))]
AddImage(st, files, box, file, u) ==
  [st EXCEPT !.imgs = Append(@, [box |-> box, file |-> file, use |-> u]), !.max = Max2(@, Needs(files[file], u))]
RECURSIVE BoxShown(_, _, _)
BoxShown(st, b, f) == b = 0 \/ (Includes(st.boxes[b].sel, f) /\ BoxShown(st, st.boxes[b].par, f))
ImageIn(st, files, i, f) == IF BoxShown(st, st.imgs[i].box, f) THEN Pick(files[st.imgs[i].file], st.imgs[i].use, f) ELSE NOTHING
=============================================================================
