------------------------------- MODULE Latex -------------------------------
(* LaTeX snippets and their cache.  A content is the whole source (header, text and tail).               *)
(* Picture of a content: [els: <<[id, refs: <<[k: "href" | "url" | "text", to]>>]>>, w, wu, h, hu]       *)
(* where a reference names an id ("text": a value that only looks like one).                             *)
EXTENDS ImageBox, FiniteSets
\* s: [cache: contents compiled for the directory, used: those of this run, log: contents given to the compiler]
S0 == [cache |-> {}, used |-> {}, log |-> <<>>]
\* op: run (a new deck on the directory), snip [c, fails], render [prune]
Ok(s, op) == op.op # "snip" \/ op.c \in s.cache \/ ~op.fails
Apply(s, op) ==
  CASE op.op = "run" -> [s EXCEPT !.used = {}]
    [] op.op = "render" -> IF op.prune THEN [s EXCEPT !.cache = @ \cap s.used] ELSE s
    [] op.c \in s.cache -> [s EXCEPT !.used = @ \cup {op.c}]
    [] op.fails -> [s EXCEPT !.log = Append(@, op.c)]
    [] OTHER -> [s EXCEPT !.log = Append(@, op.c), !.cache = @ \cup {op.c}, !.used = @ \cup {op.c}]

\* what a reference stands for: the number of an element, 0: of none
Target(pic, r) == IF r.k = "text" THEN 0
                  ELSE LET m == {i \in 1..Len(pic.els) : pic.els[i].id # "" /\ pic.els[i].id = r.to}
                       IN IF m = {} THEN 0 ELSE CHOOSE i \in m : \A j \in m : i <= j
Names(els) == {els[i].id : i \in {j \in 1..Len(els) : els[j].id # ""}}
\* got is the picture pic as embedded in a page
SameElements(pic, got) == /\ Len(got) = Len(pic.els)
                          /\ \A i \in 1..Len(got) : (got[i].id = "") = (pic.els[i].id = "") /\ Len(got[i].refs) = Len(pic.els[i].refs)
OwnIds(pic, got) == Cardinality(Names(got)) = Cardinality(Names(pic.els))
Linked(pic, got) == \A i \in 1..Len(got) : \A j \in 1..Len(got[i].refs) :
                      LET g == Target(pic, pic.els[i].refs[j])
                          r == got[i].refs[j]
                      IN IF g > 0 THEN r.to = got[g].id ELSE r.to = pic.els[i].refs[j].to
Apart(gots) == \A a, b \in 1..Len(gots) : gots[a].c # gots[b].c => Names(gots[a].els) \cap Names(gots[b].els) = {}
=============================================================================
