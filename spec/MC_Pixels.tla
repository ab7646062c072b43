----------------------------- MODULE MC_Pixels -----------------------------
(* Rectangles, ellipses, triangles and lines on a grid: the colour of the middles of the cells is that of the topmost figure.  *)
EXTENDS Pixels, Json, TLC
CONSTANTS N, EMIT
VARIABLES ns
S == 24000      \* size of a cell
K == 4
NoArrow == [size |-> 0, ang |-> 0, sw |-> 0, inner |-> 0]
Kinds == {"rect", "round", "ellipse", "triangle", "line"}
Colors == <<"255,0,0", "0,0,255", "0,128,0">>
Prog == [w |-> K * S, h |-> K * S, vb |-> <<>>, nodes |-> ns]
Init == ns = <<>>
Add(kind, x, y, w, h, z) ==
  LET i == Len(ns)
      c == Colors[i \div 2 + 1]
      b == [t |-> "box", p |-> 0, x |-> x * S, y |-> y * S, w |-> w * S, h |-> h * S, hasz |-> z # 0, z |-> z, a |-> 1, b |-> 0]
      it == [t |-> "item", p |-> i + 1, s |-> IF kind = "round" THEN "rect" ELSE IF kind = "triangle" THEN "polygon" ELSE kind,
             c |-> IF kind = "line" THEN c ELSE "", bg |-> IF kind = "line" THEN "" ELSE c, sw |-> IF kind = "line" THEN 8000 ELSE 1000, dash |-> <<>>,
             rx |-> IF kind = "round" THEN 6000 ELSE -1, ry |-> -1, rot |-> 0,
             pts |-> IF kind = "triangle" THEN << <<0, 0>>, <<0, h * S>>, <<w * S, h * S>> >> ELSE IF kind = "line" THEN << <<0, S \div 2>>, <<w * S, S \div 2>> >> ELSE <<>>,
             cmds |-> <<>>, sa |-> NoArrow, ea |-> NoArrow, iw |-> 0, ih |-> 0, scale |-> 1000]
  IN ns' = ns \o <<b, it>>
Next == /\ Len(ns) < 2 * N
        /\ \E kind \in Kinds, x, y \in 0..2 : \E w, h \in 2..3 : \E z \in {0, 1} : w # h /\ x + w <= K /\ y + h <= K /\ Add(kind, x, y, w, h, z)
Spec == Init /\ [][Next]_ns
\* is the middle of cell i, j in the figure of box b and item it: "in", "out", "?" (on the edge of a triangle, near an ellipse's edge)
Cell(b, it, i, j) ==
  LET x == i - b.x \div S  y == j - b.y \div S  w == b.w \div S  h == b.h \div S
      hit == x >= 0 /\ x < w /\ y >= 0 /\ y < h
      u == (2 * x + 1 - w) * h * 10
      v == (2 * y + 1 - h) * w * 10
      r == w * h * 10
  IN IF it.s = "line" THEN (IF x >= 0 /\ x < w /\ y = 0 THEN "in" ELSE "?")
     ELSE IF ~hit THEN "out"
     ELSE CASE it.s = "polygon" -> (CASE (2 * y + 1) * w > (2 * x + 1) * h + 3 -> "in" [] (2 * y + 1) * w < (2 * x + 1) * h - 3 -> "out" [] OTHER -> "?")
            [] it.s = "ellipse" -> (IF u * u + v * v < (r * r * 6) \div 10 THEN "in" ELSE IF u * u + v * v > (r * r * 14) \div 10 THEN "out" ELSE "?")
            [] OTHER -> "in"
\* independent of the walk through the slide: by levels
Top(i, j) ==
  LET n == Len(ns) \div 2
      lev(m) == 10 * ns[2 * m - 1].z + m
      st(m) == Cell(ns[2 * m - 1], ns[2 * m], i, j)
      hits == {m \in 1..n : st(m) # "out"}
      top == CHOOSE m \in hits : \A l \in hits : lev(l) <= lev(m)
  IN IF hits = {} THEN "none" ELSE IF st(top) = "?" THEN "?" ELSE LET it == ns[2 * top] IN IF it.bg = "" THEN it.c ELSE it.bg
Cells == (0..K - 1) \X (0..K - 1)
Seen(c) == ColorAt(Prog, Prepared(Prog, Picture(ns, 1)), <<c[1] * 120 + 60, c[2] * 120 + 60>>, <<>>, <<>>)
TopMost == \A c \in Cells : Top(c[1], c[2]) = "?" \/ Seen(c) = Top(c[1], c[2])
Outside == \A c \in {<<-1, 0>>, <<K, K>>} : Seen(c) \in {"none", "?"}
Emit == EMIT /\ ns # <<>> => PrintT("PROG" \o ToJson(Prog))
=============================================================================
