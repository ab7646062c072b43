--------------------------- MODULE CairoTextTrace ---------------------------
(* Texts on the pages of the Cairo backend, judged against Text and TextBox.  The widths of characters  *)
(* are those of the font; everything else is given.                                                     *)
EXTENDS TextBox, Json, IOUtils
Sh == INSTANCE Shapes
D == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, done
vars == <<tr, done>>
Init == tr \in 1..Len(D) /\ done = FALSE
If(c, n) == IF c THEN {n} ELSE {}
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
Rgb == [black |-> "0,0,0", red |-> "255,0,0", blue |-> "0,0,255", gray |-> "128,128,128"] @@ "#222" :> "34,34,34" @@ "#0a0" :> "0,170,0"
Alpha(o) == CASE o = "0.5" -> 50 [] o = "0.25" -> 25 [] OTHER -> 100
\* the characters of a text with their styles and lines, as they have to be seen
Expected(t, x) ==
  LET r == ReadAll(x.in, t.m)
      base == Compose(t.dflt, x.own)
      go(a, it) == IF IsNl(it) THEN [a EXCEPT !.ln = @ + 1]
                   ELSE IF it.k = "b" THEN a
                   ELSE [a EXCEPT !.out = Append(@, [c |-> it.c, ln |-> a.ln, s |-> Eff(base, StylesOf(x.styles, it.st))])]
  IN FoldLeft(go, [ln |-> 0, out |-> <<>>], Shown(r)).out
\* spaces need not be drawn; gap: number of spaces in front of a character
NoSpaces(es) == FoldLeft(LAMBDA a, e : IF e.c = " " THEN [a EXCEPT !.gap = @ + e.s.size] ELSE [out |-> Append(a.out, [c |-> e.c, ln |-> e.ln, s |-> e.s, gap |-> a.gap]), gap |-> 0],
                         [out |-> <<>>, gap |-> 0], es).out
\* glyphs as they are seen on the slide, turned back
OnSlide(t, x, gs) ==
  LET c == <<x.rect.x + x.rect.w \div 2, x.rect.y + x.rect.h \div 2>>
      back(p) == Sh!Rotate(Sh!OffPage(t, p), c, -x.rot)
      one(g) == LET p == back(g.p) q == back(g.q) IN [x |-> p[1], y |-> p[2], x2 |-> q[1], y2 |-> q[2], em |-> Sh!MulDiv(g.em, ONE, Sh!Scale(t)), g |-> g]
  IN FoldLeft(LAMBDA r, g : Append(r, one(g)), <<>>, gs)
\* a rare letter (font "") may come from another font than the one of its style
SameLook(s, g) == /\ g.font # "" => g.font = s.font /\ g.bold = (IF s.bold = "T" THEN "T" ELSE "F") /\ g.italic = (IF s.italic = "T" THEN "T" ELSE "F")
                  /\ g.color = Rgb[s.color] /\ Near(g.alpha, Alpha(s.opacity), 1)
JudgeText(t, x, gs) ==
  LET r == ReadAll(x.in, t.m)
      base == Compose(t.dflt, x.own)
      es == NoSpaces(Expected(t, x))
      n == Len(es)
      os == OnSlide(t, x, gs)
      rect == x.rect
      lines == {es[i].ln : i \in 1..n}
      at(l) == SelectSeq([i \in 1..n |-> i], LAMBDA i : es[i].ln = l)
      nl == Len(Lines(Shown(r)))
      \* the scale of the text, from the size of its largest character
      big == CHOOSE i \in 1..n : \A j \in 1..n : es[j].s.size <= es[i].s.size
      s == IF x.fit THEN Sh!MulDiv(os[big].em, ONE, es[big].s.size) ELSE ONE
      tol == 300 + Mul(700, s)
      left(l) == os[Head(at(l))].x
      right(l) == os[Last(at(l))].x2
      wide == FoldLeft(Max2, 0, [k \in 1..nl |-> IF k - 1 \in lines THEN right(k - 1) - left(k - 1) ELSE 0])
      m == [n |-> nl, w |-> Sh!MulDiv(wide, ONE, s), lh |-> LineHeight(base), h |-> nl * LineHeight(base)]
      looks == \E i \in 1..n : ~SameLook(es[i].s, os[i].g)
      sizes == \E i \in 1..n : ~Near(os[i].em, Mul(es[i].s.size, s), 60 + Mul(es[i].s.size, s) \div 200)
      base0 == Baseline(rect, m, s, base)
      levels == \E i \in 1..n : ~Near(os[i].y, base0 + Mul(es[i].ln * m.lh, s), 400 + (IF x.fit THEN m.h \div 500 ELSE 0)) \/ ~Near(os[i].y, os[i].y2, 400)
      gap(i) == Mul(es[i].gap, s)
      rows == \E i \in 1..n - 1 : es[i].ln = es[i + 1].ln /\ LET d == os[i + 1].x - os[i].x2 IN
                 d > (gap(i + 1) * 7) \div 10 + tol \/ d < gap(i + 1) \div 4 - (Mul(es[i].s.size, s) \div 4) - tol
      \* an empty line may have a width, that of a letter in any of the styles
      most0 == FoldLeft(LAMBDA a, q : IF q.k = "b" /\ q.c \in DOMAIN x.styles THEN Max2(a, x.styles[q.c].size) ELSE a, base.size, r.out)
      slack == IF \E l \in 0..nl - 1 : l \notin lines THEN most0 ELSE 0
      most == Max2(wide, Mul(slack, s))
      align == \E l \in lines : CASE base.align = "left" -> ~Near(left(l), rect.x, tol)
                                  [] base.align = "middle" -> ~Near(left(l) + right(l), 2 * rect.x + rect.w, 2 * tol)
                                  [] OTHER -> ~Near(right(l), rect.x + rect.w, tol)
      scale == x.fit /\ ~(/\ wide <= rect.w + tol /\ Mul(m.h, s) <= rect.h + 300 + rect.h \div 300
                          /\ most >= rect.w - tol \/ Mul(m.h, s) >= rect.h - 300 - rect.h \div 300)
      ask(def, v) == IF def < 0 THEN v ELSE IF x.fit THEN def ELSE Max2(def, v)
      tolw == IF x.fit /\ x.wd < 0 THEN Sh!MulDiv(tol, ONE, s) ELSE tol
      size == rect.w < ask(x.wd, m.w) - tolw \/ rect.w > ask(x.wd, Max2(m.w, slack)) + tolw \/ ~Near(rect.h, ask(x.hd, m.h), 10)
      frame(q) ==
        LET g == q.rect
            p == IF q.kind = "inline" THEN Block(r, q.name, q.k) ELSE 0
            \* the characters in front of the block, and inside of it on its first line
            ink(q2) == SelectSeq(q2, LAMBDA it : it.k = "c" /\ it.c \notin {"\n", " "})
            b == Len(ink(SubSeq(r.out, 1, p)))
            k == Len(ink(Inside(r, p)))
            ln == IF q.kind = "line" THEN q.i ELSE LineOf(r, p)
            y == Top(rect, m, s) + Mul(ln * m.lh, s)
            h == Mul((IF q.kind = "line" THEN q.n ELSE 1) * m.lh, s)
        IN IF q.kind = "inline" /\ p = 0 THEN If(q.ok, "accepted")
           ELSE IF q.kind = "inline" /\ (k = 0 \/ b + k > n) THEN {}      \* nothing in it
           ELSE IF ~q.ok THEN {"rejected"}
           ELSE If(IF q.kind = "line" THEN ~Near(g.x, rect.x, 4) ELSE ~Near(g.x, os[b + 1].x, tol), "boxx")
                \cup If(IF q.kind = "line" THEN ~Near(g.w, rect.w, 4) ELSE ~Near(g.x + g.w, os[b + k].x2, 2 * tol), "boxw")
                \cup If(~Near(g.y, y, 300 + m.h \div 300), "boxy")
                \cup If(g.h < h - 300 - m.h \div 300 \/ g.h > h + 1500 + m.h \div 300, "boxh")
  IN IF n = 0 THEN {}
     ELSE If(looks, "look") \cup If(sizes, "em") \cup If(levels, "levels") \cup If(rows, "rows") \cup If(align, "align")
          \cup If(scale, "scale") \cup If(size, "size") \cup UNION {frame(x.boxes[j]) : j \in 1..Len(x.boxes)}
Judge(t) ==
  LET es == [i \in 1..Len(t.texts) |-> NoSpaces(Expected(t, t.texts[i]))]
      gs == SelectSeq(t.glyphs, LAMBDA g : g.c # " ")
      all == FoldLeft(LAMBDA a, e : a \o e, <<>>, es)
      before(i) == FoldLeft(LAMBDA a, e : a + Len(e), 0, SubSeq(es, 1, i - 1))
  IN IF t.err # "" THEN {"err"}
     ELSE IF t.pages # 0 THEN {"pages"}
     ELSE IF [i \in 1..Len(all) |-> all[i].c] # [i \in 1..Len(gs) |-> gs[i].c] THEN {"chars"}
     ELSE UNION {JudgeText(t, t.texts[i], SubSeq(gs, before(i) + 1, before(i) + Len(es[i]))) : i \in 1..Len(t.texts)}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tr
        /\ PrintT("VERDICT" \o ToJson([tr |-> tr, bad |-> SetToSeq(Judge(D[tr])), info |-> Len(D[tr].glyphs)]))
Spec == Init /\ [][Next]_vars
=============================================================================
