------------------------------- MODULE Viewer -------------------------------
(* HTML previews of slides in one document.  A slide is a sequence of marks [a, b]: shown in the fragments a..b  *)
(* (b = 0: from a on).  A preview is a cell of the document: [frags: sets of marks, one per fragment; at].       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
Max2(a, b) == IF a > b THEN a ELSE b
Shown(m, k) == k >= m.a /\ (m.b = 0 \/ k <= m.b)
Fragments(slide) == FoldLeft(LAMBDA n, m : Max2(n, IF m.b = 0 THEN m.a ELSE m.b), 1, slide)
Preview(slide) == [frags |-> [k \in 1..Fragments(slide) |-> {i \in 1..Len(slide) : Shown(slide[i], k)}], at |-> 1]
\* s: [slides, cells, of: the slide of each cell]
S0(slides) == [slides |-> slides, cells |-> <<>>, of |-> <<>>]
Clamp(x, n) == IF x < 1 THEN 1 ELSE IF x > n THEN n ELSE x
\* op: add [s, m], preview [s], rerun [v] (the cell gets a new preview of its slide), click / fire [v, d: 1 or -1]
\* (click: the user presses the button; fire: an event is sent to it, disabled or not)
Apply(s, op) ==
  CASE op.op = "add" -> [s EXCEPT !.slides[op.s] = Append(@, op.m)]
    [] op.op = "preview" -> [s EXCEPT !.cells = Append(@, Preview(s.slides[op.s])), !.of = Append(@, op.s)]
    [] op.op = "rerun" -> [s EXCEPT !.cells[op.v] = Preview(s.slides[s.of[op.v]])]
    [] OTHER -> [s EXCEPT !.cells[op.v].at = Clamp(@ + op.d, Len(s.cells[op.v].frags))]
\* what the cell shows
Displayed(c) == [k \in 1..Len(c.frags) |-> k = c.at]
Controls(c) == Len(c.frags) > 1
NextDisabled(c) == c.at = Len(c.frags)
PreviousDisabled(c) == c.at = 1
=============================================================================
