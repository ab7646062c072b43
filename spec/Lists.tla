------------------------------- MODULE Lists -------------------------------
(* Lists of the extension module: nested list builders on one slide.  A call is                         *)
(*   new  [box, ordered, start, label, show, z]     a list in a box                                      *)
(*   sub  [list, ordered, start, over, level, label, show, z]   a sublist (over: it overrides the level) *)
(*   item [list, label, show, z]     an item with a text; the box of its contents can hold more          *)
(*   box  [box, show]                an ordinary box                                                     *)
(* label: [t: "none" | "str" | "fn", s]; show: [t: "none" | "int" | "str"]; z: [has, v]; pad: the gap     *)
(* between label and item, ind: the indentation of sublists (of new) or of this one, in 1/1000, -1: not given. *)
EXTENDS Selector, SequencesExt, TLC

Max2(a, b) == IF a > b THEN a ELSE b
NoShow == [t |-> "none"]
DEFSHOW == [t |-> "str", s |-> <<"l", "a", "s", "t", "+">>]
NoZ == [has |-> FALSE, v |-> 0]
Free == [t |-> "none"]

\* boxes: [par, sel, z]; lists: [box, level, ordered, label, show, z, pad, ind, root, sum, off]; texts: [box, s, list (0: not a label), pad] in order of creation
S0 == [max |-> 1, boxes |-> <<[par |-> 0, sel |-> SelOf(NoShow, 0), z |-> 0]>>, lists |-> <<>>, texts |-> <<>>,
       holders |-> <<1>>, items |-> 0, calls |-> <<>>]
AddBox(s, par, show, z) ==
  LET sel == SelOf(show, s.max)
  IN [s EXCEPT !.boxes = Append(@, [par |-> par, sel |-> sel, z |-> IF z.has THEN z.v ELSE s.boxes[par].z]),
               !.max = Max2(@, Named(sel))]
Holder(s) == [s EXCEPT !.holders = Append(@, Len(s.boxes))]
AddText(s, box, x, list, pad) == [s EXCEPT !.texts = Append(@, [box |-> box, s |-> x, list |-> list, pad |-> pad])]
OrPad(a, b) == IF a = -1 THEN b ELSE a

OrShow(a, b) == IF a.t = "none" THEN b ELSE a
OrZ(a, b) == IF a.has THEN a ELSE b
Dots(level, sep) == FoldLeft(LAMBDA a, n : IF a = "" THEN ToString(n) ELSE a \o sep \o ToString(n), "", level)

NewList(s, op) ==
  LET t == AddBox(s, s.holders[op.box], NoShow, NoZ)
  IN [t EXCEPT !.lists = Append(@, [box |-> Len(t.boxes), level |-> <<op.start - 1>>, ordered |-> op.ordered,
                                    label |-> op.label, show |-> OrShow(op.show, DEFSHOW), z |-> op.z, pad |-> OrPad(op.pad, 25000),
                                    ind |-> OrPad(op.ind, 10000), root |-> Len(s.lists) + 1, sum |-> 0, off |-> 0])]
SubList(s, op) ==
  LET l == s.lists[op.list]
      show == OrShow(op.show, l.show)
      z == OrZ(op.z, l.z)
      t == AddBox(s, l.box, show, z)
      ind == OrPad(op.ind, l.ind)
      sum == l.sum + ind
      \* the box of a list, and again each of its items, is shifted by the sum of the indentations up to the list
  IN [t EXCEPT !.lists = Append(@, [box |-> Len(t.boxes), level |-> Append(IF op.over THEN op.level ELSE l.level, op.start - 1),
                                    ordered |-> op.ordered, label |-> op.label, show |-> show, z |-> z, pad |-> l.pad,
                                    ind |-> ind, root |-> l.root, sum |-> sum, off |-> l.off + sum])]
LabelText(l, label, level) ==
  CASE label.t = "str" -> label.s
    [] label.t = "fn" -> label.s \o Dots(level, "-")
    [] l.ordered -> Dots(level, ".") \o "."
    [] OTHER -> "BULLET"
AddItem(s, op) ==
  LET l0 == s.lists[op.list]
      level == [l0.level EXCEPT ![Len(l0.level)] = @ + 1]
      l == [l0 EXCEPT !.level = level]
      lab == IF op.label.t = "none" THEN l.label ELSE op.label
      a == AddBox([s EXCEPT !.lists[op.list] = l, !.items = @ + 1], l.box, OrShow(op.show, l.show), OrZ(op.z, l.z))
      me == Len(a.boxes)
      b == AddText(AddBox(a, me, NoShow, NoZ), me + 1, LabelText(l, lab, level), op.list, OrPad(op.pad, l.pad))
      c == Holder(AddBox(b, me, NoShow, NoZ))
      d == AddText(c, me + 2, "i" \o ToString(c.items), 0, 0)
  IN IF lab.t = "fn" THEN [d EXCEPT !.calls = Append(@, [fn |-> lab.s, level |-> level])] ELSE d
\* bad: a call with an argument that cannot be; it leaves no box and isn't counted
Apply(s, op) == CASE op.bad # "" -> s
                  [] op.op = "new" -> NewList(s, op)
                  [] op.op = "sub" -> SubList(s, op)
                  [] op.op = "item" -> AddItem(s, op)
                  [] OTHER -> Holder(AddBox(s, s.holders[op.box], op.show, op.z))

RECURSIVE Shown(_, _, _)
Shown(s, b, f) == b = 0 \/ (Includes(s.boxes[b].sel, f) /\ Shown(s, s.boxes[b].par, f))
RECURSIVE Path(_, _)
Path(s, b) == IF b = 0 THEN <<>> ELSE Append(Path(s, s.boxes[b].par), b)
\* paint order: z-level, then the order of the tree
RECURSIVE Lex(_, _)
Lex(p, q) == IF q = <<>> THEN FALSE ELSE IF p = <<>> THEN TRUE
             ELSE IF p[1] # q[1] THEN p[1] < q[1] ELSE Lex(Tail(p), Tail(q))
PageTexts(s, f) ==
  LET q == SelectSeq([i \in 1..Len(s.texts) |-> i], LAMBDA i : Shown(s, s.texts[i].box, f))
      zz(i) == s.boxes[s.texts[i].box].z
      path == [i \in 1..Len(s.texts) |-> Path(s, s.texts[i].box)]
      before(i, j) == zz(i) < zz(j) \/ (zz(i) = zz(j) /\ Lex(path[i], path[j]))
  IN SortSeq(q, before)
Page(s, f) == LET r == PageTexts(s, f) IN [i \in 1..Len(r) |-> s.texts[r[i]].s]

\* Places of the texts of a page, geo[i] = [x (left edge), y, w]: items begin right of their labels, labels of a list are aligned
Misplaced(s, f, geo) ==
  LET r == PageTexts(s, f)
      near(a, b) == a - b \in -5..5
      label(i) == s.texts[r[i]].list
      next(i) == CHOOSE j \in 1..Len(r) : r[j] = r[i] + 1
  IN \E i \in 1..Len(r) : label(i) # 0 /\
       \/ ~near(geo[next(i)].x, geo[i].x + geo[i].w + s.texts[r[i]].pad)
       \/ \E j \in 1..Len(r) : /\ label(j) = label(i)
                               /\ ~near(geo[j].x, geo[i].x) \/ (r[i] < r[j] /\ geo[j].y < geo[i].y + 1000)
       \/ \E j \in 1..Len(r) : /\ label(j) # 0
                               /\ LET a == s.lists[label(i)] b == s.lists[label(j)]
                                  IN a.root = b.root /\ ~near(geo[j].x - geo[i].x, (b.off + b.sum) - (a.off + a.sum))
=============================================================================
