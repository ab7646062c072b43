-------------------------------- MODULE Text --------------------------------
(* Texts with inline styles.  Read is the transition function of a reader that consumes one character  *)
(* at a time; its output is the sequence of shown characters, each with the blocks that enclose it, and *)
(* of block starts.  Eff composes styles.  Lengths are in 1/1000 px.                                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

\* m: [e, b, c] escape, opening and closing character; e = "" if there is no escape character
R0 == [mode |-> "text", name |-> "", stack |-> <<>>, out |-> <<>>, n |-> 0]
Put(r, c) == [r EXCEPT !.out = Append(@, [k |-> "c", c |-> c, st |-> r.stack])]
Open(r) == [r EXCEPT !.mode = "text", !.name = "", !.n = @ + 1,
                     !.stack = Append(@, r.name),
                     !.out = Append(@, [k |-> "b", c |-> r.name, st |-> Append(r.stack, r.name)])]
Read(r, c, m) ==
  CASE r.mode = "text" /\ c = m.e -> [r EXCEPT !.mode = "esc"]
    [] r.mode = "text" /\ c = m.c /\ r.stack # <<>> ->
         [r EXCEPT !.stack = Front(@), !.out = Append(@, [k |-> "e", c |-> "", st |-> Front(r.stack)])]
    [] r.mode = "text" -> Put(r, c)
    [] r.mode = "esc" /\ c = m.e -> [Put(r, c) EXCEPT !.mode = "text"]
    [] c = m.b -> Open(r)
    [] OTHER -> [r EXCEPT !.mode = "name", !.name = @ \o c]
ReadAll(cs, m) == FoldLeft(LAMBDA r, c : Read(r, c, m), R0, cs)
Complete(r) == r.mode = "text" /\ r.stack = <<>>

IsNl(t) == t.k = "c" /\ t.c = "\n"
\* line breaks after the last character and the last block start are dropped; ends of blocks are not needed any more
RECURSIVE DropEnd(_)
DropEnd(q) == IF q # <<>> /\ IsNl(Last(q)) THEN DropEnd(Front(q)) ELSE q
Shown(r) == DropEnd(SelectSeq(r.out, LAMBDA t : t.k # "e"))

Lines(q) == FoldLeft(LAMBDA a, t : IF IsNl(t) THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, t)], <<<<>>>>, q)
Chars(q) == SelectSeq(q, LAMBDA t : t.k = "c")
Names(r) == {r.out[i].c : i \in {j \in 1..Len(r.out) : r.out[j].k = "b"}}

\* the canonical markup of what was read (r complete); reading it gives the same again
Quote(r, m) ==
  LET one(t) == CASE t.k = "e" -> <<m.c>>
                  [] t.k = "b" -> <<m.e, t.c, m.b>>
                  [] t.c = m.e -> <<m.e, m.e>>
                  [] OTHER -> <<t.c>>
  IN FoldLeft(LAMBDA a, t : a \o one(t), <<>>, r.out)

--------------------------------------------------------------------------------
(* Styles: [font, size, color, opacity, bold, italic, variant, prio]; "" and -1 are unset attributes     *)
Over(a, b) == IF b = "" THEN a ELSE b
OverN(a, b) == IF b = -1 THEN a ELSE b
Compose(s, t) == [font |-> Over(s.font, t.font), size |-> OverN(s.size, t.size), color |-> Over(s.color, t.color),
                  opacity |-> Over(s.opacity, t.opacity), bold |-> Over(s.bold, t.bold),
                  italic |-> Over(s.italic, t.italic), variant |-> Over(s.variant, t.variant),
                  align |-> Over(s.align, t.align), spacing |-> OverN(s.spacing, t.spacing), prio |-> t.prio]
\* a style of lower priority than the effective one has no effect
Apply(s, t) == IF s.prio > t.prio THEN s ELSE Compose(s, t)
IsDummy(n) == Len(n) > 0 /\ SubSeq(n, 1, 1) = "#"
Eff(base, seq) == FoldLeft(LAMBDA s, t : Apply(s, t), base, seq)
\* the styles of a stack of block names; dummies that are not defined are left out
StylesOf(styles, stack) == LET ok == SelectSeq(stack, LAMBDA n : n \in DOMAIN styles)
                           IN [i \in 1..Len(ok) |-> styles[ok[i]]]
Undefined(styles, names) == \E n \in names : n \notin DOMAIN styles /\ ~IsDummy(n)
Look(s) == [font |-> s.font, size |-> s.size, color |-> s.color, opacity |-> s.opacity,
            bold |-> IF s.bold = "T" THEN "T" ELSE "F", italic |-> IF s.italic = "T" THEN "T" ELSE "F",
            variant |-> s.variant]

\* advance of a character in the metric of the stand-in Inkscape
Advance(s) == (s.size * (4 + (IF s.bold = "T" THEN 1 ELSE 0) + (IF s.font = "monospace" THEN 1 ELSE 0))) \div 8
LineHeight(base) == (base.size * base.spacing) \div 1000
=============================================================================
