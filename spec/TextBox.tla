------------------------------- MODULE TextBox -------------------------------
(* Where a text is drawn in its box, what it asks the layout for, and the boxes around its lines and    *)
(* ranges.  Lengths are in 1/1000 px, scales in 1/10000.                                               *)
EXTENDS Text
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
MaxSeq(q) == FoldLeft(Max2, 0, q)
ONE == 10000
\* a * s / ONE without overflow
Mul(a, s) == (a \div ONE) * s + ((a % ONE) * (s \div 100)) \div 100 + ((a % ONE) * (s % 100)) \div ONE

Wide(base, styles, items) ==
  FoldLeft(LAMBDA a, t : IF t.k = "c" THEN a + Advance(Eff(base, StylesOf(styles, t.st))) ELSE a, 0, items)

\* what is measured of a text: its lines, its natural size, its line height
Measure(base, styles, r) ==
  LET ls == Lines(Shown(r))
      ws == [i \in 1..Len(ls) |-> Wide(base, styles, ls[i])]
  IN [n |-> Len(ls), ws |-> ws, w |-> MaxSeq(ws), lh |-> LineHeight(base), h |-> Len(ls) * LineHeight(base)]

\* what the text asks its box for; defined: whether the box has a definition of its size along the axis
Asks(m, fit, wdef, hdef) == [w |-> IF fit /\ wdef THEN 0 ELSE m.w, h |-> IF fit /\ hdef THEN 0 ELSE m.h]

AnchorX(rect, align) == CASE align = "left" -> rect.x [] align = "middle" -> rect.x + rect.w \div 2 [] OTHER -> rect.x + rect.w
Anchor(align) == CASE align = "left" -> "start" [] align = "middle" -> "middle" [] OTHER -> "end"
Top(rect, m, s) == rect.y + (rect.h - Mul(m.h, s)) \div 2
Baseline(rect, m, s, base) == Top(rect, m, s) + Mul(base.size, s)
\* s is the largest scale with which the text fits
Fits(rect, m, s, tol) == /\ Mul(m.w, s) <= rect.w + tol /\ Mul(m.h, s) <= rect.h + tol
                         /\ Mul(m.w, s) >= rect.w - tol \/ Mul(m.h, s) >= rect.h - tol

LineBox(rect, m, s, i, n) == [x |-> rect.x, w |-> rect.w, y |-> Top(rect, m, s) + Mul(i * m.lh, s), h |-> Mul(n * m.lh, s)]

\* the k-th block of that name: position in r.out, or 0
Block(r, name, k) ==
  LET ps == SelectSeq([i \in 1..Len(r.out) |-> i], LAMBDA i : r.out[i].k = "b" /\ r.out[i].c = name)
  IN IF k <= Len(ps) THEN ps[k] ELSE 0
LineOf(r, p) == Len(SelectSeq(SubSeq(r.out, 1, p), IsNl))
\* items of the block's first line in front of it, and inside of it
Before(r, p) == LET nls == SelectSeq([i \in 1..(p - 1) |-> i], LAMBDA i : IsNl(r.out[i]))
                IN SubSeq(r.out, IF nls = <<>> THEN 1 ELSE Last(nls) + 1, p - 1)
Inside(r, p) ==
  LET d == Len(r.out[p].st)
      stop == SelectSeq([i \in 1..(Len(r.out) - p) |-> p + i], LAMBDA i : IsNl(r.out[i]) \/ (r.out[i].k = "e" /\ Len(r.out[i].st) < d))
  IN SubSeq(r.out, p + 1, Head(stop) - 1)
RangeBox(rect, m, s, base, styles, r, p, align) ==
  LET ln == LineOf(r, p)
      total == m.ws[ln + 1]
      left == (CASE align = "left" -> 0 [] align = "middle" -> total \div 2 [] OTHER -> total)
      b == Wide(base, styles, Before(r, p))
      w == Wide(base, styles, Inside(r, p))
  IN [x |-> AnchorX(rect, align) + Mul(b, s) - Mul(left, s), w |-> Mul(w, s), y |-> Top(rect, m, s) + Mul(ln * m.lh, s), h |-> Mul(m.lh, s)]
=============================================================================
