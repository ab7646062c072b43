------------------------------- MODULE Slide -------------------------------
(* A slide under construction: tree of boxes, items, fragments, paint order and layout.              *)
(* The state is a record, Apply(s, op) is the transition function of the public building calls, and  *)
(* Painted / RectOf / ... are the observations of a rendered page.  Lengths are in 1/1000 px.        *)
EXTENDS Selector, TLC, SequencesExt

LOCAL Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
FILL == <<"f", "i", "l", "l">>

--------------------------------------------------------------------------------
(* Size and position values.  Raw: [t |-> "none"|"num"|"str"|"lazy"|"bad", v, s, lz]                 *)
SizeOf(a) ==
  LET s == IF a.t = "str" THEN a.s ELSE <<>>
      n == Len(s)
      bad == [ok |-> FALSE, k |-> "min", v |-> 0]
  IN CASE a.t = "none" -> [ok |-> TRUE, k |-> "min", v |-> 0]
       [] a.t = "num" -> [ok |-> TRUE, k |-> "min", v |-> a.v]
       [] a.t = "str" ->
            IF IsNumber(s) THEN [ok |-> TRUE, k |-> "min", v |-> NumVal(s) * 1000]
            ELSE IF n > 1 /\ s[n] = "%" /\ IsNumber(SubSeq(s, 1, n - 1))
                 THEN [ok |-> TRUE, k |-> "ratio", v |-> NumVal(SubSeq(s, 1, n - 1))]
            ELSE IF s = FILL THEN [ok |-> TRUE, k |-> "fill", v |-> 1]
            ELSE IF n > 6 /\ SubSeq(s, 1, 5) = FILL \o <<"(">> /\ s[n] = ")" /\ IsNumber(SubSeq(s, 6, n - 1))
                 THEN [ok |-> TRUE, k |-> "fill", v |-> NumVal(SubSeq(s, 6, n - 1))]
            ELSE bad
       [] OTHER -> bad

\* k in {"none", "fix", "ratio", "align", "lazy"}
PosOf(a) ==
  LET s == IF a.t = "str" THEN a.s ELSE <<>>
      n == Len(s)
      bad == [ok |-> FALSE, k |-> "none", v |-> 0, lz |-> <<>>]
  IN CASE a.t = "none" -> [ok |-> TRUE, k |-> "none", v |-> 0, lz |-> <<>>]
       [] a.t = "num" -> [ok |-> TRUE, k |-> "fix", v |-> a.v, lz |-> <<>>]
       [] a.t = "lazy" -> [ok |-> TRUE, k |-> "lazy", v |-> 0, lz |-> a.lz]
       [] a.t = "str" ->
            IF IsNumber(s) THEN [ok |-> TRUE, k |-> "fix", v |-> NumVal(s) * 1000, lz |-> <<>>]
            ELSE IF n > 1 /\ s[n] = "%" /\ IsNumber(SubSeq(s, 1, n - 1))
                 THEN [ok |-> TRUE, k |-> "ratio", v |-> NumVal(SubSeq(s, 1, n - 1)), lz |-> <<>>]
            ELSE IF n > 3 /\ s[1] = "[" /\ s[n] = "]" /\ s[n - 1] = "%" /\ IsNumber(SubSeq(s, 2, n - 2))
                 THEN [ok |-> TRUE, k |-> "align", v |-> NumVal(SubSeq(s, 2, n - 2)), lz |-> <<>>]
            ELSE bad
       [] OTHER -> bad

None == [t |-> "none"]
Str(s) == [t |-> "str", s |-> s]
Num(v) == [t |-> "num", v |-> v]
Hundred == Str(<<"1", "0", "0", "%">>)
OrElse(a, d) == IF a.t = "none" THEN d ELSE a

--------------------------------------------------------------------------------
(* Construction *)
Init0(w, h) ==
  [boxes |-> <<[par |-> 0, sel |-> SelOf(None, 1), x |-> PosOf(Num(0)), y |-> PosOf(Num(0)),
                w |-> SizeOf(Num(w)), h |-> SizeOf(Num(h)), pad |-> [l |-> 0, r |-> 0, t |-> 0, b |-> 0],
                hor |-> FALSE, z |-> 0, cw |-> 0, ch |-> 0]>>,
   items |-> <<>>, kids |-> <<<<>>>>, lkids |-> <<<<>>>>, max |-> 1]

Pad(side, axis, all) == IF side >= 0 THEN side ELSE IF axis >= 0 THEN axis ELSE Max2(all, 0)

InsertAt1(seq, i, e) == SubSeq(seq, 1, i - 1) \o <<e>> \o SubSeq(seq, i, Len(seq))
Pos(seq, e) == CHOOSE i \in 1..Len(seq) : seq[i] = e
Has(seq, e) == \E i \in 1..Len(seq) : seq[i] = e

Rejected(s) == [ok |-> FALSE, s |-> s]

\* op: [par, via, sel, x, y, w, h, p (pl,pr,pt,pb,px,py,pd; -1 = not given), hor, zset, z, prep, ab, be]
ApplyBox(s, op) ==
  LET ph == s.boxes[op.par].hor
      x == PosOf(IF op.via = "overlay" THEN OrElse(op.x, Num(0)) ELSE op.x)
      y == PosOf(IF op.via = "overlay" THEN OrElse(op.y, Num(0)) ELSE op.y)
      wd == CASE op.via = "overlay" -> OrElse(op.w, Hundred)
              [] op.via = "fbox" \/ (op.via = "sbox" /\ ~ph) -> OrElse(op.w, Str(FILL))
              [] OTHER -> op.w
      hd == CASE op.via = "overlay" -> OrElse(op.h, Hundred)
              [] op.via = "fbox" \/ (op.via = "sbox" /\ ph) -> OrElse(op.h, Str(FILL))
              [] OTHER -> op.h
      w == SizeOf(wd)
      h == SizeOf(hd)
      sel == SelOf(op.sel, s.max)
      sib == s.kids[op.par]
      ok == /\ sel.ok /\ x.ok /\ y.ok /\ w.ok /\ h.ok
            /\ ~(op.ab # 0 /\ op.be # 0)
            /\ (op.ab # 0 => Has(sib, op.ab)) /\ (op.be # 0 => Has(sib, op.be))
      id == Len(s.boxes) + 1
      at == IF op.be # 0 THEN Pos(sib, op.be)
            ELSE IF op.ab # 0 THEN Pos(sib, op.ab) + 1
            ELSE IF op.prep THEN 1 ELSE Len(sib) + 1
      lsib == s.lkids[op.par]
      box == [par |-> op.par, sel |-> sel, x |-> x, y |-> y, w |-> w, h |-> h,
              pad |-> [l |-> Pad(op.p[1], op.p[5], op.p[7]), r |-> Pad(op.p[2], op.p[5], op.p[7]),
                       t |-> Pad(op.p[3], op.p[6], op.p[7]), b |-> Pad(op.p[4], op.p[6], op.p[7])],
              hor |-> op.hor, z |-> IF op.zset THEN op.z ELSE s.boxes[op.par].z, cw |-> 0, ch |-> 0]
  IN IF ~ok THEN Rejected(s)
     ELSE [ok |-> TRUE,
           s |-> [boxes |-> Append(s.boxes, box), items |-> s.items,
                  kids |-> Append([s.kids EXCEPT ![op.par] = InsertAt1(sib, at, id)], <<>>),
                  lkids |-> Append([s.lkids EXCEPT ![op.par] =
                                      IF op.prep THEN <<id>> \o lsib ELSE Append(lsib, id)], <<>>),
                  max |-> Max2(s.max, Named(sel))]]

\* op: [box, kind, pts, cw, ch (requested content size, 0 = none), steps (fragments needed), begin]
ApplyItem(s, op) ==
  LET id == Len(s.items) + 1
      b == s.boxes[op.box]
  IN [ok |-> TRUE,
      s |-> [s EXCEPT !.items = Append(@, [box |-> op.box, kind |-> op.kind, pts |-> op.pts,
                                           begin |-> op.begin, end |-> op.end, cw |-> op.cw, ch |-> op.ch, size |-> op.size]),
                      !.kids[op.box] = Append(@, -id),
                      !.boxes[op.box] = [b EXCEPT !.cw = Max2(@, op.cw), !.ch = Max2(@, op.ch)],
                      !.max = Max2(@, op.steps)]]

\* op "reject": a drawing call that cannot be carried out
Apply(s, op) == CASE op.op = "box" -> ApplyBox(s, op)
                  [] op.op = "reject" -> Rejected(s)
                  [] OTHER -> ApplyItem(s, op)

--------------------------------------------------------------------------------
(* Fragments and paint order *)
RECURSIVE BoxShown(_, _, _)
BoxShown(s, b, f) == Includes(s.boxes[b].sel, f) /\ (s.boxes[b].par = 0 \/ BoxShown(s, s.boxes[b].par, f))
\* an image is shown from `begin`, and up to `end` if it selects its fragments
ItemShown(s, i, f) == LET it == s.items[i]
                      IN BoxShown(s, it.box, f) /\ f >= it.begin /\ (it.end = 0 \/ f <= it.end)

NPages(s) == s.max

RECURSIVE Dfs(_, _)
Dfs(s, b) == \* all items below b, depth first
  LET k == s.kids[b]
  IN FoldLeft(LAMBDA acc, r : acc \o (IF r < 0 THEN <<-r>> ELSE Dfs(s, r)), <<>>, k)

\* stable sort by z
ByZ(s, seq) ==
  LET Z(i) == s.boxes[s.items[i].box].z
      zs == {Z(seq[i]) : i \in 1..Len(seq)}
      zseq == SetToSortSeq(zs, <)
  IN FoldLeft(LAMBDA acc, z : acc \o SelectSeq(seq, LAMBDA i : Z(i) = z), <<>>, zseq)

Painted(s, f) == ByZ(s, SelectSeq(Dfs(s, 1), LAMBDA i : ItemShown(s, i, f)))

(* Debug mode *)
RECURSIVE DebugDfs(_, _, _)
DebugDfs(s, b, f) == \* items (< 0) and frames of boxes (> 0), depth first
  IF ~Includes(s.boxes[b].sel, f) THEN <<>>
  ELSE FoldLeft(LAMBDA acc, r : acc \o (IF r > 0 THEN DebugDfs(s, r, f) ELSE IF ItemShown(s, -r, f) THEN <<r>> ELSE <<>>),
                <<>>, s.kids[b]) \o <<b>>
DebugOrder(s, f) ==
  LET q == DebugDfs(s, 1, f)
      Z(e) == s.boxes[IF e > 0 THEN e ELSE s.items[-e].box].z
      zs == SetToSortSeq({Z(q[i]) : i \in 1..Len(q)}, <)
  IN FoldLeft(LAMBDA acc, z : acc \o SelectSeq(q, LAMBDA e : Z(e) = z), <<>>, zs)

--------------------------------------------------------------------------------
(* Layout *)
Managed(s, b) == IF s.boxes[s.boxes[b].par].hor THEN s.boxes[b].x.k = "none" ELSE s.boxes[b].y.k = "none"
ManagedKids(s, b) == SelectSeq(s.lkids[b], LAMBDA c : Managed(s, c))
SumSeq(q) == FoldLeft(LAMBDA a, v : a + v, 0, q)
MaxSeq(q) == FoldLeft(Max2, 0, q)

\* [w |-> min width, h |-> min height] asked by every box, computed from the last to the first box
Needs(s) ==
  LET n == Len(s.boxes)
      step(acc, b) ==
        LET bx == s.boxes[b]
            mk == ManagedKids(s, b)
            ws == [i \in 1..Len(mk) |-> acc[mk[i]].w]
            hs == [i \in 1..Len(mk) |-> acc[mk[i]].h]
            cw == IF bx.hor THEN SumSeq(ws) ELSE MaxSeq(ws)
            ch == IF bx.hor THEN MaxSeq(hs) ELSE SumSeq(hs)
            own(v) == IF v.k = "min" THEN v.v ELSE 0
        IN (b :> [w |-> Max2(own(bx.w), Max2(cw, bx.cw) + bx.pad.l + bx.pad.r),
                  h |-> Max2(own(bx.h), Max2(ch, bx.ch) + bx.pad.t + bx.pad.b)]) @@ acc
  IN FoldLeft(step, <<>>, [i \in 1..n |-> n + 1 - i])

SizeV(s, b, horz) == IF horz THEN s.boxes[b].w ELSE s.boxes[b].h
NeedV(need, b, horz) == IF horz THEN need[b].w ELSE need[b].h

\* Size of b along an axis, given the inner size of its parent; `unit` is one fill share (main axis)
Extent(s, need, b, horz, full, main, free, fills) ==
  LET v == SizeV(s, b, horz)
      m == NeedV(need, b, horz)
  IN CASE v.k = "fill" -> IF main THEN (free * v.v) \div fills ELSE full
       [] v.k = "ratio" -> Max2((full * v.v) \div 100, m)
       [] OTHER -> m

Fills(s, b) == \* sum of the fill weights of the managed children
  LET h == s.boxes[b].hor
      mk == ManagedKids(s, b)
  IN SumSeq([i \in 1..Len(mk) |-> IF SizeV(s, mk[i], h).k = "fill" THEN SizeV(s, mk[i], h).v ELSE 0])
Free(s, need, b, rect) == \* main-axis space left by the managed children that do not fill
  LET h == s.boxes[b].hor
      mk == ManagedKids(s, b)
      full == IF h THEN rect.w ELSE rect.h
  IN full - SumSeq([i \in 1..Len(mk) |->
       IF SizeV(s, mk[i], h).k = "fill" THEN 0 ELSE Extent(s, need, mk[i], h, full, TRUE, 0, 1)])

\* the outer size of child c of a box whose inner rectangle is rect
ChildSize(s, need, c, rect) ==
  LET p == s.boxes[c].par
      h == s.boxes[p].hor
      free == Free(s, need, p, rect)
      fills == Max2(1, Fills(s, p))
  IN [w |-> Extent(s, need, c, TRUE, rect.w, h, free, fills),
      h |-> Extent(s, need, c, FALSE, rect.h, ~h, free, fills)]

\* a coordinate of inner rectangle rect: [k, v] of a position value, self = own size along the axis
Coord(origin, full, self, v) ==
  CASE v.k = "fix" -> origin + v.v
    [] v.k = "ratio" -> origin + (full * v.v) \div 100
    [] v.k = "align" -> origin + ((full - self) * v.v) \div 100

\* lazy value lz: [ref (box), axis ("x"/"y"), c (raw position value), ops (<<op, n>>: add / mul)]
Moved(v, ops) == FoldLeft(LAMBDA a, o : IF o.o = "add" THEN a + o.n ELSE a * o.n, v, ops)
LazyVal(rects, lz) ==
  LET r == rects[lz.ref]
      c == PosOf(lz.c)
  IN Moved(IF lz.axis = "x" THEN Coord(r.x, r.w, 0, c) ELSE Coord(r.y, r.h, 0, c), lz.ops)

Inner(pad, r) == [x |-> r.x + pad.l, y |-> r.y + pad.t, w |-> r.w - pad.l - pad.r, h |-> r.h - pad.t - pad.b]

ChildRect(s, need, rects, c) ==
  LET p == s.boxes[c].par
      bx == s.boxes[c]
      h == s.boxes[p].hor
      r == rects[p]
      sz == ChildSize(s, need, c, r)
      mk == ManagedKids(s, p)
      start == IF Fills(s, p) > 0 THEN 0 ELSE Free(s, need, p, r) \div 2
      before == IF Managed(s, c)
                THEN SumSeq([i \in 1..(Pos(mk, c) - 1) |->
                       LET z == ChildSize(s, need, mk[i], r) IN IF h THEN z.w ELSE z.h])
                ELSE 0
      x == CASE bx.x.k = "lazy" -> LazyVal(rects, bx.x.lz)
             [] bx.x.k # "none" -> Coord(r.x, r.w, sz.w, bx.x)
             [] h -> r.x + start + before
             [] OTHER -> r.x + (r.w - sz.w) \div 2
      y == CASE bx.y.k = "lazy" -> LazyVal(rects, bx.y.lz)
             [] bx.y.k # "none" -> Coord(r.y, r.h, sz.h, bx.y)
             [] ~h -> r.y + start + before
             [] OTHER -> r.y + (r.h - sz.h) \div 2
  IN Inner(bx.pad, [x |-> x, y |-> y, w |-> sz.w, h |-> sz.h])

Refs(bx) == (IF bx.x.k = "lazy" THEN {bx.x.lz.ref} ELSE {}) \cup (IF bx.y.k = "lazy" THEN {bx.y.lz.ref} ELSE {})

\* Inner rectangles of all boxes; every round places the boxes whose parent and references are placed
Rects(s, w, h) ==
  LET need == Needs(s)
      n == Len(s.boxes)
      round(acc, _r) ==
        FoldLeft(LAMBDA a, b :
                   IF b \in DOMAIN a THEN a
                   ELSE IF ({s.boxes[b].par} \cup Refs(s.boxes[b])) \subseteq DOMAIN a
                        THEN (b :> ChildRect(s, need, a, b)) @@ a
                        ELSE a, acc, [i \in 1..n |-> i])
      fst == round(1 :> [x |-> 0, y |-> 0, w |-> w, h |-> h], 0)
  IN IF DOMAIN fst = 1..n THEN fst ELSE FoldLeft(round, fst, [i \in 1..n |-> i])

\* No box gets less than it needs because of an overfull parent (the statements leave that case open),
\* and no box fills along the main axis although it is positioned explicitly.
Fits(s, rects) ==
  LET need == Needs(s)
  IN \A b \in 2..Len(s.boxes) :
       LET p == s.boxes[b].par
           h == s.boxes[p].hor
       IN SizeV(s, b, h).k = "fill" =>
            /\ Managed(s, b)
            /\ LET z == ChildSize(s, need, b, rects[p]) IN (IF h THEN z.w ELSE z.h) >= NeedV(need, b, h)

Point(s, rects, box, p) ==
  IF p.t = "lazy" THEN <<LazyVal(rects, p.x), LazyVal(rects, p.y)>>
  ELSE LET r == rects[box]
       IN <<Coord(r.x, r.w, 0, PosOf(p.x)), Coord(r.y, r.h, 0, PosOf(p.y))>>

\* Expected geometry of an item as a flat sequence
Geo(s, rects, i) ==
  LET it == s.items[i]
      r == rects[it.box]
  IN CASE it.kind \in {"rect", "ellipse"} -> <<r.x, r.y, r.w, r.h>>
       [] it.kind = "text" -> <<r.x + r.w \div 2, r.y + (r.h - it.ch) \div 2 + it.size>>
       [] it.kind \in {"line", "polygon", "path"} ->
            FoldLeft(LAMBDA a, p : a \o Point(s, rects, it.box, p), <<>>, it.pts)
       [] OTHER -> <<>>

Close(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= tol
=============================================================================
