---------------------------- MODULE TextBoxTrace ----------------------------
(* Boxes with texts, line boxes and inline boxes rendered by the real code, judged against TextBox.     *)
EXTENDS TextBox, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, done
vars == <<tr, done>>
Init == tr \in 1..Len(D) /\ done = FALSE
If(c, n) == IF c THEN {n} ELSE {}
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
\* distance of an angle (1/1000 degree) from a full turn
Turn(a) == LET r == a % 360000 IN IF r > 180000 THEN 360000 - r ELSE r
\* size of the box along an axis: definition [k, v], request, padding, inner size of the parent
Size(d, ask, pad, full) ==
  LET need == ask + 2 * pad
      out == CASE d.k = "none" -> need
               [] d.k = "px" -> Max2(d.v, need)
               [] d.k = "ratio" -> Max2((full * d.v) \div 100, need)
               [] OTHER -> full
  IN out - 2 * pad

Judge(t) ==
  LET n == Len(t.texts)
      R == [i \in 1..n |-> ReadAll(t.texts[i].in, t.m)]
      B == [i \in 1..n |-> Compose(t.dflt, t.texts[i].own)]
      M == [i \in 1..n |-> Measure(B[i], t.styles, R[i])]
      asks == [i \in 1..n |-> Asks(M[i], t.texts[i].fit, t.wd.k # "none", t.hd.k # "none")]
      rect == t.rect
      tol(i) == IF t.texts[i].fit THEN 300 ELSE 4
      S(i) == t.texts[i].s
      size == ~Near(rect.w, Size(t.wd, MaxSeq([i \in 1..n |-> asks[i].w]), t.pad, t.full.w), 6)
              \/ ~Near(rect.h, Size(t.hd, MaxSeq([i \in 1..n |-> asks[i].h]), t.pad, t.full.h), 6)
      place(i) ==
        LET x == t.texts[i] m == M[i] b == B[i]
            empty == m.w = 0 \/ m.h = 0
            none == x.fit /\ ~empty /\ (rect.w <= 0 \/ rect.h <= 0)
        IN IF m.w = 0 THEN {}     \* nothing to be seen
           ELSE IF none THEN If(x.drawn, "drawn")
           ELSE IF ~x.drawn THEN {"drawn"}
           ELSE If(x.anchor # Anchor(b.align) \/ ~Near(x.x, AnchorX(rect, b.align), tol(i)), "align")
                \cup If(IF x.fit /\ ~empty THEN ~Fits(rect, m, x.s, 300) ELSE x.s # ONE, "scale")
                \cup If(~x.even \/ Turn(x.ang - x.rot) > 2 \/ (Turn(x.rot) # 0 /\ ~(Near(x.cx, rect.x + rect.w \div 2, 20) /\ Near(x.cy, rect.y + rect.h \div 2, 20))), "turn")
                \cup If(~Near(x.y, Baseline(rect, m, x.s, b), tol(i)), "centre")
      frame(q) ==
        LET i == q.text
            p == IF q.kind = "inline" THEN Block(R[i], q.name, q.k) ELSE 1
            e == IF q.kind = "line" THEN LineBox(rect, M[i], S(i), q.i, q.n)
                 ELSE RangeBox(rect, M[i], S(i), B[i], t.styles, R[i], p, B[i].align)
            w == IF q.w >= 0 THEN q.w ELSE e.w
            g == q.rect
        IN IF p = 0 THEN If(q.ok, "accepted")
           ELSE IF ~q.ok THEN {"rejected"}
           ELSE If(~Near(g.x - q.pad, e.x, tol(i)) /\ ~(q.kind = "inline" /\ e.w = 0), "boxx")
                \cup If(~Near(g.w + 2 * q.pad, w, tol(i)), "boxw")
                \cup If(~Near(g.y - q.pad, e.y, tol(i)), "boxy")
                \cup If(g.h + 2 * q.pad < e.h - tol(i) \/ g.h + 2 * q.pad > e.h + 2000 + tol(i), "boxh")
  IN IF t.err # "" THEN {"rejected"}
     ELSE If(size, "size") \cup UNION {place(i) : i \in 1..n}
          \cup UNION {frame(t.boxes[j]) : j \in {j \in 1..Len(t.boxes) : t.texts[t.boxes[j].text].drawn /\ M[t.boxes[j].text].w > 0}}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tr
        /\ PrintT("VERDICT" \o ToJson([tr |-> tr, bad |-> SetToSeq(Judge(D[tr])), info |-> [n |-> Len(D[tr].texts)]]))
Spec == Init /\ [][Next]_vars
=============================================================================
