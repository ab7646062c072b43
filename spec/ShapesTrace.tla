---------------------------- MODULE ShapesTrace ----------------------------
(* What is seen on the pages of a slide of shapes.  T[tr]: [prog, fmt, err,                              *)
(*   pages: <<[w, h, figs: <<[k: fill|stroke|image, c, w, dash, path]>>]>>], coordinates of the page in 1/1000 px.     *)
EXTENDS Shapes, Json, IOUtils, TLC
T == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, done
vars == <<tr, done>>
Init == tr \in 1..Len(T) /\ done = FALSE
If(c, n) == IF c THEN {n} ELSE {}
Near(x, y, tol) == x - y <= tol /\ y - x <= tol
Tol(t) == IF t.vb = <<>> THEN 160 ELSE 400
NearPt(p, q, tol) == Near(p[1], q[1], tol) /\ Near(p[2], q[2], tol)
NearSeg(g, h, tol) == Len(g) = Len(h) /\ \A i \in 1..Len(g) : NearPt(g[i], h[i], tol)
OnlyLines(sub) == \A i \in 1..Len(sub.segs) : Len(sub.segs[i]) = 1
Points(sub) == <<sub.p>> \o [i \in 1..Len(sub.segs) |-> Last2(sub.segs[i])]
SamePts(ps, qs, tol) == \A i \in 1..Len(ps) : NearPt(ps[i], qs[i], tol)
Shift(ps, k) == [i \in 1..Len(ps) |-> ps[((i + k - 1) % Len(ps)) + 1]]
\* q lies between p and r
Between(p, q, r) == LET ux == (q[1] - p[1]) \div 100 uy == (q[2] - p[2]) \div 100 vx == (r[1] - q[1]) \div 100 vy == (r[2] - q[2]) \div 100
                        u == Abs(ux) + Abs(uy)
                        v == Abs(vx) + Abs(vy)
                    IN Abs(ux * vy - uy * vx) <= (u * v) \div 50 + u + v /\ ux * vx + uy * vy >= 0
\* curves that are lines as lines
Straighten(sub) == LET ps == Points(sub)
                   IN [sub EXCEPT !.segs = [i \in 1..Len(sub.segs) |-> LET g == sub.segs[i] IN
                         IF Len(g) = 3 /\ Between(ps[i], g[1], g[3]) /\ Between(ps[i], g[2], g[3]) THEN <<g[3]>> ELSE g]]
\* without points in the middle of a line
Merge(sub) == LET ps == Points(sub)
                  n == Len(ps)
                  mid(i) == IF sub.closed THEN Between(ps[((i + n - 2) % n) + 1], ps[i], ps[(i % n) + 1]) ELSE i > 1 /\ i < n /\ Between(ps[i - 1], ps[i], ps[i + 1])
                  keep == SelectSeq([i \in 1..n |-> i], LAMBDA i : ~mid(i))
              IN IF ~OnlyLines(sub) \/ Len(keep) < 2 THEN sub
                 ELSE [sub EXCEPT !.p = ps[keep[1]], !.segs = [j \in 1..Len(keep) - 1 |-> Line(ps[keep[j + 1]])]]
Clean(sub) == LET s == Tidy(<<Straighten(sub)>>) IN IF s = <<>> THEN sub ELSE Merge(s[1])
\* a filled subpath is closed anyway
Filled(sub) == Clean([sub EXCEPT !.closed = TRUE])
NearSub(k, a, b, dashed, tol) ==
  LET e == IF k = "stroke" THEN Clean(a) ELSE Filled(a)
      o == IF k = "stroke" THEN Clean(b) ELSE Filled(b)
      ps == Points(e)
      qs == Points(o)
  IN /\ Len(e.segs) = Len(o.segs)
     /\ e.closed = o.closed
     /\ \/ NearPt(e.p, o.p, tol) /\ \A i \in 1..Len(e.segs) : NearSeg(e.segs[i], o.segs[i], tol)
        \/ /\ OnlyLines(e) /\ OnlyLines(o)
           /\ IF e.closed THEN k # "image" /\ \E j \in 0..Len(ps) - 1 : SamePts(Shift(ps, j), qs, tol) \/ SamePts(Shift(ps, j), Reverse(qs), tol)
              ELSE ~dashed /\ SamePts(ps, Reverse(qs), tol)
NearPath(k, p, q, dashed, tol) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : NearSub(k, p[i], q[i], dashed, tol)
PathOnPage(t, path) == [i \in 1..Len(path) |-> [closed |-> path[i].closed, p |-> OnPage(t, path[i].p),
                          segs |-> [j \in 1..Len(path[i].segs) |-> [l \in 1..Len(path[i].segs[j]) |-> OnPage(t, path[i].segs[j][l])]]]]
\* points of a path: the ends and the middles of its segments
Middle(a, g) == IF Len(g) = 1 THEN <<(a[1] + g[1][1]) \div 2, (a[2] + g[1][2]) \div 2>>
                ELSE <<(a[1] + 3 * g[1][1] + 3 * g[2][1] + g[3][1]) \div 8, (a[2] + 3 * g[1][2] + 3 * g[2][2] + g[3][2]) \div 8>>
Samples(sub) == LET ps == Points(sub) IN FoldLeft(LAMBDA r, i : r \o <<Middle(ps[i], sub.segs[i]), ps[i + 1]>>, <<sub.p>>, [i \in 1..Len(sub.segs) |-> i])
Round(t, f, path) ==
  LET c == <<f.r[1] + f.r[3] \div 2, f.r[2] + f.r[4] \div 2>>
      s == Samples(path[1])
      ps == [i \in 1..Len(s) |-> Rotate(OffPage(t, s[i]), c, -f.rot)]
      eps == (Tol(t) * 10000) \div Scale(t)
      x == f.r[1]  y == f.r[2]  w == f.r[3]  h == f.r[4]
      at(q, dx, dy) == \E i \in 1..Len(ps) : Near(ps[i][1], q[1], 2 * eps + dx) /\ Near(ps[i][2], q[2], 2 * eps + dy)
      ax == (52 * f.rx) \div 100  bx == (14 * f.rx) \div 100  ay == (52 * f.ry) \div 100  by == (14 * f.ry) \div 100
  IN /\ Len(path) = 1 /\ Len(path[1].segs) >= 2
     /\ NearPt(s[1], s[Len(s)], eps) \/ path[1].closed
     /\ \A i \in 1..Len(ps) : OnBorder(f, ps[i], eps)
     /\ at(<<x, y + f.ry>>, bx, ay) /\ at(<<x + w, y + f.ry>>, bx, ay) /\ at(<<x + f.rx, y>>, ax, by) /\ at(<<x + f.rx, y + h>>, ax, by)
     /\ at(<<x, y + h - f.ry>>, bx, ay) /\ at(<<x + w, y + h - f.ry>>, bx, ay) /\ at(<<x + w - f.rx, y>>, ax, by) /\ at(<<x + w - f.rx, y + h>>, ax, by)
Dashes(t, d) == IF Len(d) % 2 = 0 THEN d ELSE d \o d
Figure(t, e, o) ==
  LET tol == Tol(t) IN
  If(e.k # o.k, "kind") \cup If(e.c # o.c, "color")
  \cup If(e.k = "stroke" /\ ~Near(Times(e.w, Scale(t)), o.w, 30), "width")
  \cup (LET d == Dashes(t, e.dash) IN If(e.k = "stroke" /\ ~(Len(d) = Len(o.dash) /\ \A i \in 1..Len(d) : Near(Times(d[i], Scale(t)), o.dash[i], 50)), "dashes"))
  \cup If(~(IF e.t = "round" THEN o.path # <<>> /\ Round(t, e, o.path) ELSE NearPath(e.k, PathOnPage(t, e.path), Tidy(o.path), e.dash # <<>>, tol)), "geometry")
\* points of an expected figure on the page
Places(t, e) == LET c == <<e.r[1] + e.r[3] \div 2, e.r[2] + e.r[4] \div 2>>
                    mids == << <<e.r[1], c[2]>>, <<e.r[1] + e.r[3], c[2]>>, <<c[1], e.r[2]>>, <<c[1], e.r[2] + e.r[4]>> >>
                    ps == IF e.t = "round" THEN Turned(mids, c, e.rot) ELSE FlattenSeq([i \in 1..Len(e.path) |-> Samples(e.path[i])])
                IN {OnPage(t, ps[i]) : i \in 1..Len(ps)}
\* nothing of it can be seen
Outside(t, e) == LET ps == Places(t, e)
                     \* a dashed line may reach into the page with a gap
                     m == 1000 + FoldLeft(Max2, 0, [i \in 1..Len(e.dash) |-> Times(e.dash[i], Scale(t))])
                 IN (\A p \in ps : p[1] <= m) \/ (\A p \in ps : p[1] >= t.w - m) \/ (\A p \in ps : p[2] <= m) \/ (\A p \in ps : p[2] >= t.h - m)
Line2(p, q, r) == LET ux == (q[1] - p[1]) \div 100 uy == (q[2] - p[2]) \div 100 vx == (r[1] - p[1]) \div 100 vy == (r[2] - p[2]) \div 100
                      u == Abs(ux) + Abs(uy)
                      v == Abs(vx) + Abs(vy)
                  IN Abs(ux * vy - uy * vx) <= (u * v) \div 100 + u + v
Thin(sub) == LET ps == <<sub.p>> \o FlattenSeq(sub.segs)
                 far == CHOOSE i \in 1..Len(ps) : \A j \in 1..Len(ps) : Abs(ps[j][1] - ps[1][1]) + Abs(ps[j][2] - ps[1][2]) <= Abs(ps[i][1] - ps[1][1]) + Abs(ps[i][2] - ps[1][2])
             IN \A j \in 1..Len(ps) : Line2(ps[1], ps[far], ps[j])
\* a fill of no area
Flat(e) == e.k = "fill" /\ e.t = "path" /\ \A i \in 1..Len(e.path) : Thin(e.path[i])
\* the figures of a page one after the other; figures that cannot be seen may be left out
Match(t, es, os) ==
  FoldLeft(LAMBDA s, e : IF s.j < Len(os) /\ Figure(t, e, os[s.j + 1]) = {} THEN [s EXCEPT !.j = @ + 1]
                         ELSE IF Outside(t, e) \/ Flat(e) THEN s
                         ELSE [j |-> s.j + 1, bad |-> s.bad \cup IF s.j < Len(os) THEN Figure(t, e, os[s.j + 1]) ELSE {"figures"}], [j |-> 0, bad |-> {}], es)
Matched(t, es, os) == LET m == Match(t, es, os) IN m.bad \cup If(m.j < Len(os), "figures")
\* a rectangle over the whole page: all below it may be left out, and its parts outside of the page
Whole(t, k, path, On(_)) ==
  /\ k = "fill" /\ Len(path) = 1 /\ OnlyLines(path[1]) /\ Len(path[1].segs) = 3
  /\ LET ps == [i \in 1..4 |-> On(Points(path[1])[i])]
     IN /\ \A i \in 1..4 : Near(ps[i][1], ps[(i % 4) + 1][1], 20) \/ Near(ps[i][2], ps[(i % 4) + 1][2], 20)
        /\ \A i \in 1..4 : (ps[i][1] <= 500 \/ ps[i][1] >= t.w - 500) /\ (ps[i][2] <= 500 \/ ps[i][2] >= t.h - 500)
        /\ \E i, j \in 1..4 : ps[i][1] <= 500 /\ ps[i][2] <= 500 /\ ps[j][1] >= t.w - 500 /\ ps[j][2] >= t.h - 500
Covers(t, e) == LET on(p) == OnPage(t, p) IN e.t = "path" /\ Whole(t, e.k, e.path, on)
Covering(t, o) == LET on(p) == p IN Whole(t, o.k, o.path, on)
Page(t, k, o) ==
  LET es == Picture(t.nodes, k)
      cs == {i \in 1..Len(es) : Covers(t, es[i])}
      all == Matched(t, es, o.figs)
      top == o.figs # <<>> /\ \E i \in cs : /\ Covering(t, o.figs[1]) /\ o.figs[1].c = es[i].c
                                            /\ Matched(t, SubSeq(es, i + 1, Len(es)), Tail(o.figs)) = {}
  IN If(~Near(o.w, t.w, 20) \/ ~Near(o.h, t.h, 20), "size") \cup IF all # {} /\ top THEN {} ELSE all
Judge == /\ ~done
         /\ LET t == T[tr]
                v == IF t.err # "" THEN {"err"}
                     ELSE If(Len(t.pages) # Fragments(t.prog.nodes), "pages")
                          \cup UNION {Page(t.prog, k, t.pages[k]) : k \in 1..Min2(Len(t.pages), Fragments(t.prog.nodes))}
            IN PrintT("VERDICT" \o ToJson([tr |-> tr, bad |-> SetToSeq(v), info |-> t.fmt]))
         /\ done' = TRUE /\ UNCHANGED tr
Next == Judge
Spec == Init /\ [][Next]_vars
=============================================================================
