------------------------------- MODULE Pixels -------------------------------
(* The colour of a point of a slide of shapes (Shapes), where it can be told: away from edges and corners.  *)
(* Lengths in 1/5 px of the page.                                                                          *)
EXTENDS Shapes
TOL == 7       \* 1.4 px
\* "in": p is inside for sure, "out": outside for sure, "?": near the edge
Small(t, p) == LET q == OnPage(t, p) IN <<q[1] \div 200, q[2] \div 200>>
Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
Manhattan(a, b) == Abs(a[1] - b[1]) + Abs(a[2] - b[2])
Far(p, a, b, d) == \/ p[1] < Min2(a[1], b[1]) - d \/ p[1] > Max2(a[1], b[1]) + d
                   \/ p[2] < Min2(a[2], b[2]) - d \/ p[2] > Max2(a[2], b[2]) + d
                   \/ Abs(Cross(a, b, p)) > d * Manhattan(a, b)
Bez(a, b, c, d, k) == LET j == 16 - k IN (j * j * j * a + 3 * j * j * k * b + 3 * j * k * k * c + k * k * k * d) \div 4096
\* a subpath as a sequence of points
Flatten(t, sub) ==
  FoldLeft(LAMBDA r, g : LET a == Last2(r) IN
             IF Len(g) = 1 THEN Append(r, Small(t, g[1]))
             ELSE LET h == [i \in 1..3 |-> Small(t, g[i])]
                  IN r \o [k \in 1..16 |-> <<Bez(a[1], h[1][1], h[2][1], h[3][1], k), Bez(a[2], h[1][2], h[2][2], h[3][2], k)>>],
           <<Small(t, sub.p)>>, sub.segs)
Edges(ps, closed) == [i \in 1..(IF closed THEN Len(ps) ELSE Len(ps) - 1) |-> <<ps[i], ps[(i % Len(ps)) + 1]>>]
Curved(path) == \E i \in 1..Len(path) : \E j \in 1..Len(path[i].segs) : Len(path[i].segs[j]) = 3
AllEdges(t, path, fill) == FoldLeft(LAMBDA r, s : r \o Edges(Flatten(t, s), fill \/ s.closed), <<>>, path)
Winding(es, p) == FoldLeft(LAMBDA n, e : CASE e[1][2] <= p[2] /\ e[2][2] > p[2] /\ Cross(e[1], e[2], p) > 0 -> n + 1
                                           [] e[1][2] > p[2] /\ e[2][2] <= p[2] /\ Cross(e[1], e[2], p) < 0 -> n - 1
                                           [] OTHER -> n, 0, es)
InPath(g, p) == LET es == g.es
                    d == IF g.f.k = "image" THEN 5 * TOL ELSE IF g.curved THEN 4 * TOL ELSE TOL
                IN IF \A i \in 1..Len(es) : Far(p, es[i][1], es[i][2], d) THEN (IF Winding(es, p) # 0 THEN "in" ELSE "out") ELSE "?"
\* on a line of width w
Near2(p, a, b, d) == /\ Abs(Cross(a, b, p)) <= d * Max2(Abs(b[1] - a[1]), Abs(b[2] - a[2]))
                     /\ LET x == (p[1] - a[1]) * (b[1] - a[1]) + (p[2] - a[2]) * (b[2] - a[2])
                            y == (p[1] - b[1]) * (a[1] - b[1]) + (p[2] - b[2]) * (a[2] - b[2])
                        IN x > 2 * TOL * Manhattan(a, b) /\ y > 2 * TOL * Manhattan(a, b)   \* not at the ends
OnLines(g, p) ==    LET es == g.es
                        c == g.curved
                        w == g.w
                        d == w \div 2 + (IF c THEN 4 * TOL ELSE TOL)
                    IN CASE \A i \in 1..Len(es) : Far(p, es[i][1], es[i][2], d) /\ Manhattan(p, es[i][1]) > 6 * w + TOL /\ Manhattan(p, es[i][2]) > 6 * w + TOL -> "out"
                         [] ~c /\ ~g.dashed /\ w \div 2 > TOL + 2 /\ \E i \in 1..Len(es) : Near2(p, es[i][1], es[i][2], w \div 2 - TOL - 2) -> "in"
                         [] OTHER -> "?"
\* inside of a round rectangle; p in 1/1000 px of the slide, eps around the edge
InRound(f, p, eps) ==
  LET c == <<f.r[1] + f.r[3] \div 2, f.r[2] + f.r[4] \div 2>>
      q == Rotate(p, c, -f.rot)
      x == q[1] - f.r[1]  y == q[2] - f.r[2]  w == f.r[3]  h == f.r[4]
      dx == IF x < f.rx THEN f.rx - x ELSE IF x > w - f.rx THEN x - (w - f.rx) ELSE 0
      dy == IF y < f.ry THEN f.ry - y ELSE IF y > h - f.ry THEN y - (h - f.ry) ELSE 0
      u == (dx * 100) \div Max2(f.rx, 1)
      v == (dy * 100) \div Max2(f.ry, 1)
      e == (100 * eps) \div Max2(Min2(f.rx, f.ry), 1) + 3
  IN CASE x < -eps \/ x > w + eps \/ y < -eps \/ y > h + eps -> "out"
       [] x < eps \/ x > w - eps \/ y < eps \/ y > h - eps -> "?"
       [] (x >= f.rx + eps /\ x <= w - f.rx - eps) \/ (y >= f.ry + eps /\ y <= h - f.ry - eps) -> "in"
       [] e >= 60 -> "?"
       [] u * u + v * v > (100 + e) * (100 + e) -> "out"
       [] u * u + v * v < (100 - e) * (100 - e) -> "in"
       [] OTHER -> "?"
Eps(t, d) == MulDiv(d * 200, 10000, Scale(t))
\* a figure with its edges
Prepare(t, f) == LET path == f.t = "path" IN
                 [f |-> f, curved |-> path /\ Curved(f.path), es |-> IF path THEN AllEdges(t, f.path, f.k # "stroke") ELSE <<>>,
                  w |-> Times(f.w, Scale(t)) \div 200, dashed |-> f.dash # <<>>, four |-> IF f.k = "image" THEN Flatten(t, f.path[1]) ELSE <<>>]
Prepared(t, fs) == FoldLeft(LAMBDA r, f : Append(r, Prepare(t, f)), <<>>, fs)
\* "in", "out" or "?" for a figure; p in 1/5 px of the page
InFigure(t, g, p) ==
  LET slide == OffPage(t, <<p[1] * 200, p[2] * 200>>)
      f == g.f
  IN
  CASE f.t = "round" /\ f.k = "fill" -> InRound(f, slide, Eps(t, TOL))
    [] f.t = "round" -> IF InRound(f, slide, Eps(t, TOL) + f.w \div 2) = "?" THEN "?" ELSE "out"
    [] f.k = "stroke" -> OnLines(g, p)
    [] OTHER -> InPath(g, p)
\* images are made of two halves
ImageColor(g, p, left, right) ==
  LET q == g.four
      m == <<(q[1][1] + q[2][1]) \div 2, (q[1][2] + q[2][2]) \div 2>>
      n == <<(q[4][1] + q[3][1]) \div 2, (q[4][2] + q[3][2]) \div 2>>
      big == 5 * TOL
      far(a, b) == Far(p, a, b, big)
  IN IF ~far(m, n) \/ \E i \in 1..4 : ~far(q[i], q[(i % 4) + 1]) THEN "?"
     ELSE IF (Cross(m, n, p) > 0) = (Cross(m, n, q[1]) > 0) THEN left ELSE right
\* the colour of p on the picture gs; hs: [c, l, r] colours of the halves of images, trans: translucent colours; "?": cannot be told, "none": nothing painted
ColorAt(t, gs, p, hs, trans) ==
  FoldRight(LAMBDA g, r :
      IF r.done THEN r
      ELSE LET w == InFigure(t, g, p) IN
        CASE w = "out" -> r
          [] w = "?" -> [done |-> TRUE, c |-> "?"]
          [] OTHER ->
               LET h == CHOOSE i \in 1..Len(hs) : hs[i].c = g.f.c
                   c == IF g.f.k = "image" THEN ImageColor(g, p, hs[h].l, hs[h].r) ELSE g.f.c
               IN IF r.c # "none" THEN [done |-> TRUE, c |-> "?"]       \* below a translucent one
                  ELSE IF \E i \in 1..Len(trans) : trans[i] = c THEN [r EXCEPT !.c = c]
                  ELSE [done |-> TRUE, c |-> c],
      gs, [done |-> FALSE, c |-> "none"]).c
=============================================================================
