------------------------------- MODULE Shapes -------------------------------
(* What a slide of boxes with shapes shows.  Lengths in 1/1000 px.                                       *)
(* A program: [w, h, vb: view box <<x, y, w, h>> or <<>>, nodes: in creation order]; a node has its parent p (0: the slide). *)
(* A box node [t |-> "box", p, x, y, w, h, z, hasz, a, b]: shown in fragments a..b (b = 0: from a on).    *)
(* An item [t |-> "item", p, s: kind, c, bg: colours ("": none), sw: line width, dash, rx, ry (-1: none), rot: multiples of 5 deg,      *)
(*          pts, cmds: <<[n: name, a: points]>>, sa, ea: arrow heads [size (0: none), ang, sw (0: filled), inner], iw, ih, scale]        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
\* a * b / c for |a| <= 2 * 10^6, 0 <= b, c <= 10^6 (TLC has 32 bit integers)
MulDivP(a, b, c) == LET hi == (a \div 1000) * b
                    IN (hi \div c) * 1000 + ((hi % c) * 1000 + (a % 1000) * b) \div c
MulDiv(a, b, c) == IF a < 0 THEN -MulDivP(-a, b, c) ELSE MulDivP(a, b, c)
\* a / 1000 px times u / 10^4
Times(a, u) == LET s == IF u < 0 THEN -u ELSE u
                   x == Abs(a)
                   v == (x \div 10000) * s + ((x % 10000) * s) \div 10000
               IN IF (a < 0) = (u < 0) THEN v ELSE -v
Quarter == <<10000, 9962, 9848, 9659, 9397, 9063, 8660, 8192, 7660, 7071, 6428, 5736, 5000, 4226, 3420, 2588, 1736, 872, 0>>
RECURSIVE Cos(_)
Cos(d) == CASE d < 0 -> Cos(-d) [] d >= 360 -> Cos(d % 360) [] d > 180 -> Cos(360 - d) [] d > 90 -> -Cos(180 - d) [] OTHER -> Quarter[d \div 5 + 1]
Sin(d) == Cos(d - 90)
\* p rotated by d degrees (clockwise on the screen) around c
Rotate(p, c, d) == IF d = 0 THEN p
                   ELSE LET x == p[1] - c[1] y == p[2] - c[2]
                        IN <<c[1] + Times(x, Cos(d)) - Times(y, Sin(d)), c[2] + Times(x, Sin(d)) + Times(y, Cos(d))>>

\* ------------------------------------------------------------ tree
IsBox(n) == n.t = "box"
RECURSIVE Place(_, _), ZLevel(_, _), Visible(_, _, _)
Place(ns, i) == IF i = 0 THEN <<0, 0>> ELSE LET o == Place(ns, ns[i].p) IN <<o[1] + ns[i].x, o[2] + ns[i].y>>
ZLevel(ns, i) == IF i = 0 THEN 0 ELSE IF ns[i].hasz THEN ns[i].z ELSE ZLevel(ns, ns[i].p)
Visible(ns, i, k) == i = 0 \/ (k >= ns[i].a /\ (ns[i].b = 0 \/ k <= ns[i].b) /\ Visible(ns, ns[i].p, k))
RECURSIVE Walk(_, _)
Walk(ns, p) == FoldLeft(LAMBDA r, i : IF ns[i].p # p THEN r ELSE IF IsBox(ns[i]) THEN r \o Walk(ns, i) ELSE Append(r, i), <<>>, [i \in 1..Len(ns) |-> i])
\* items in the order in which they are painted
Order(ns, k) == LET w == SelectSeq(Walk(ns, 0), LAMBDA i : Visible(ns, ns[i].p, k))
                    zs == SetToSortSeq({ZLevel(ns, ns[w[j]].p) : j \in 1..Len(w)}, LAMBDA a, b : a < b)
                IN FoldLeft(LAMBDA r, z : r \o SelectSeq(w, LAMBDA i : ZLevel(ns, ns[i].p) = z), <<>>, zs)
Fragments(ns) == FoldLeft(LAMBDA m, n : IF IsBox(n) THEN Max2(m, IF n.b = 0 THEN n.a ELSE n.b) ELSE m, 1, ns)

\* ------------------------------------------------------------ paths
\* a path: sequence of subpaths [closed, p: start, segs: sequences of 1 (line) or 3 (curve) points]
Line(q) == <<q>>
Last2(s) == s[Len(s)]
EndOf(sub) == IF sub.segs = <<>> THEN sub.p ELSE Last2(Last2(sub.segs))
Same(p, q) == Abs(p[1] - q[1]) <= 5 /\ Abs(p[2] - q[2]) <= 5
\* without lines of no length (a closed subpath may also name its end) and subpaths of nothing
Tidy(path) ==
  LET lines(sub) == FoldLeft(LAMBDA r, g : IF Len(g) = 1 /\ Same(g[1], EndOf(r)) THEN r ELSE [r EXCEPT !.segs = Append(@, g)], [sub EXCEPT !.segs = <<>>], sub.segs)
      ends(sub) == IF sub.closed /\ sub.segs # <<>> /\ Len(Last2(sub.segs)) = 1 /\ Same(EndOf(sub), sub.p) THEN [sub EXCEPT !.segs = Front(@)] ELSE sub
  IN SelectSeq([i \in 1..Len(path) |-> ends(lines(path[i]))], LAMBDA sub : sub.segs # <<>>)
Polygon(ps) == <<[closed |-> TRUE, p |-> ps[1], segs |-> [i \in 1..Len(ps) - 1 |-> Line(ps[i + 1])]]>>
Polyline(ps) == <<[closed |-> FALSE, p |-> ps[1], segs |-> [i \in 1..Len(ps) - 1 |-> Line(ps[i + 1])]]>>
NArgs(n) == CASE n \in {"M", "L", "T"} -> 1 [] n \in {"S", "Q"} -> 2 [] OTHER -> 3
\* commands with repeated arguments, one by one
Single(cmds) == FlattenSeq([i \in 1..Len(cmds) |->
                  LET n == NArgs(cmds[i].n)
                  IN [j \in 1..Len(cmds[i].a) \div n |-> [n |-> IF cmds[i].n = "M" /\ j > 1 THEN "L" ELSE cmds[i].n, a |-> SubSeq(cmds[i].a, (j - 1) * n + 1, j * n)]]])
Mirror(p, c) == <<2 * c[1] - p[1], 2 * c[2] - p[2]>>
Third(p, q) == <<(p[1] + 2 * q[1]) \div 3, (p[2] + 2 * q[2]) \div 3>>
\* s: [path, at, cc: last control point of a cubic, qc: of a quadratic one]
PathStep(s, c) ==
  LET at == s.at
      to == Last2(c.a)
      add(g, cc, qc) == [path |-> Append(Front(s.path), [Last2(s.path) EXCEPT !.segs = Append(@, g)]), at |-> to, cc |-> cc, qc |-> qc]
      quad(q) == add(<<Third(at, q), Third(to, q), to>>, <<>>, q)
  IN CASE c.n = "M" -> [path |-> Append(s.path, [closed |-> FALSE, p |-> to, segs |-> <<>>]), at |-> to, cc |-> <<>>, qc |-> <<>>]
       [] c.n = "L" -> add(Line(to), <<>>, <<>>)
       [] c.n = "C" -> add(c.a, c.a[2], <<>>)
       [] c.n = "S" -> add(<<IF s.cc = <<>> THEN at ELSE Mirror(s.cc, at), c.a[1], to>>, c.a[1], <<>>)
       [] c.n = "Q" -> quad(c.a[1])
       [] c.n = "T" -> quad(IF s.qc = <<>> THEN at ELSE Mirror(s.qc, at))
PathOf(cmds) == FoldLeft(PathStep, [path |-> <<>>, at |-> <<0, 0>>, cc |-> <<>>, qc |-> <<>>], Single(cmds)).path

\* ------------------------------------------------------------ figures
\* the length of a vector of whole px that has a whole length
Length(dx, dy) == LET x == Abs(dx) y == Abs(dy) IN CHOOSE n \in Max2(x, y)..(x + y) : n * n = x * x + y * y
\* the point d/1000 px behind q on the way from p to q
Behind(p, q, d) == LET dx == (q[1] - p[1]) \div 1000 dy == (q[2] - p[2]) \div 1000 n == Length(dx, dy)
                   IN <<q[1] - (IF dx < 0 THEN -MulDiv(d, -dx, n) ELSE MulDiv(d, dx, n)), q[2] - (IF dy < 0 THEN -MulDiv(d, -dy, n) ELSE MulDiv(d, dy, n))>>
Fig(k, c, w, dash, path) == [k |-> k, c |-> c, w |-> w, dash |-> dash, path |-> Tidy(path), t |-> "path", r |-> <<>>, rx |-> 0, ry |-> 0, rot |-> 0]
RoundFig(k, c, w, dash, r, rx, ry, rot) == [k |-> k, c |-> c, w |-> w, dash |-> dash, path |-> <<>>, t |-> "round", r |-> r, rx |-> rx, ry |-> ry, rot |-> rot]
Painted(it, fig(_, _, _, _)) == (IF it.bg # "" THEN <<fig("fill", it.bg, 0, <<>>)>> ELSE <<>>) \o (IF it.c # "" /\ it.sw > 0 THEN <<fig("stroke", it.c, it.sw, it.dash)>> ELSE <<>>)
\* an arrow head on the way from p to q, of the colour of its line
ArrowHead(ar, p, q, c) ==
  LET tip == q
      side(d) == Rotate(Behind(p, q, ar.size), q, d)
      back == Behind(p, q, Times(MulDiv(ar.size, ar.inner, 1000), Cos(ar.ang)))
  IN IF c = "" THEN <<>>
     ELSE IF ar.sw > 0 THEN <<Fig("stroke", c, ar.sw, <<>>, Polyline(<<side(ar.ang), tip, side(-ar.ang)>>))>>
     ELSE <<Fig("fill", c, 0, <<>>, Polygon(<<side(ar.ang), tip, side(-ar.ang)>> \o (IF ar.inner > 0 THEN <<back>> ELSE <<>>)))>>
\* where the line ends below the head
Under(ar, p, q) == IF ar.size = 0 THEN q ELSE Behind(p, q, IF ar.sw > 0 THEN ar.sw \div 2 ELSE Times(ar.size, Cos(ar.ang)) \div 2)
Moved(ps, o) == [i \in 1..Len(ps) |-> <<ps[i][1] + o[1], ps[i][2] + o[2]>>]
Turned(ps, c, d) == [i \in 1..Len(ps) |-> Rotate(ps[i], c, d)]
Centre(ps) == <<FoldLeft(LAMBDA a, p : a + p[1], 0, ps) \div Len(ps), FoldLeft(LAMBDA a, p : a + p[2], 0, ps) \div Len(ps)>>
Corners(x, y, w, h) == << <<x, y>>, <<x + w, y>>, <<x + w, y + h>>, <<x, y + h>> >>
Figs(ns, i) ==
  LET it == ns[i]
      o == Place(ns, it.p)
      b == ns[it.p]
      mid == <<o[1] + b.w \div 2, o[2] + b.h \div 2>>
      box == Corners(o[1], o[2], b.w, b.h)
  IN CASE it.s = "rect" ->
            LET rx == IF it.rx < 0 THEN Max2(it.ry, 0) ELSE it.rx
                ry == IF it.ry < 0 THEN Max2(it.rx, 0) ELSE it.ry
                plain(k, c, w, d) == Fig(k, c, w, d, Polygon(Turned(box, mid, it.rot)))
                round(k, c, w, d) == RoundFig(k, c, w, d, <<o[1], o[2], b.w, b.h>>, Min2(rx, b.w \div 2), Min2(ry, b.h \div 2), it.rot)
            IN IF rx = 0 \/ ry = 0 THEN Painted(it, plain) ELSE Painted(it, round)
       [] it.s = "ellipse" ->
            LET fig(k, c, w, d) == RoundFig(k, c, w, d, <<o[1], o[2], b.w, b.h>>, b.w \div 2, b.h \div 2, it.rot)
            IN IF b.w = 0 \/ b.h = 0 THEN <<>> ELSE Painted(it, fig)
       [] it.s = "polygon" ->
            LET ps == Moved(it.pts, o)
                fig(k, c, w, d) == Fig(k, c, w, d, Polygon(Turned(ps, Centre(ps), it.rot)))
            IN Painted(it, fig)
       [] it.s = "line" ->
            LET ps == Moved(it.pts, o)
                n == Len(ps)
                qs == [j \in 1..n |-> IF j = n THEN Under(it.ea, ps[n - 1], ps[n]) ELSE IF j = 1 THEN Under(it.sa, ps[2], ps[1]) ELSE ps[j]]
                fig(k, c, w, d) == Fig(k, c, w, d, Polyline(qs))
            IN Painted([it EXCEPT !.bg = ""], fig) \o (IF it.sa.size > 0 THEN ArrowHead(it.sa, ps[2], ps[1], it.c) ELSE <<>>)
                                                   \o (IF it.ea.size > 0 THEN ArrowHead(it.ea, ps[n - 1], ps[n], it.c) ELSE <<>>)
       [] it.s = "path" ->
            LET cs == [j \in 1..Len(it.cmds) |-> [it.cmds[j] EXCEPT !.a = Moved(@, o)]]
                all == FlattenSeq([j \in 1..Len(cs) |-> cs[j].a])
                m == Len(all)
                l == Len(cs)
                ends == IF it.ea.size = 0 THEN cs ELSE [cs EXCEPT ![l].a = Append(Front(@), Under(it.ea, all[m - 1], all[m]))]
                fig(k, c, w, d) == Fig(k, c, w, d, PathOf(ends))
            IN Painted(it, fig) \o (IF it.ea.size > 0 THEN ArrowHead(it.ea, all[m - 1], all[m], it.c) ELSE <<>>)
       [] OTHER ->       \* png, svg: an image; the svg ones are a triangle
            LET w == MulDiv(it.iw, it.scale, 1000)
                h == MulDiv(it.ih, it.scale, 1000)
                r == Turned(Corners(mid[1] - w \div 2, mid[2] - h \div 2, w, h), mid, it.rot)
            IN IF it.s = "png" THEN <<Fig("image", it.bg, 0, <<>>, Polygon(r))>> ELSE <<Fig("fill", it.bg, 0, <<>>, Polygon(<<r[1], r[2], r[4]>>))>>
Picture(ns, k) == FlattenSeq([j \in 1..Len(Order(ns, k)) |-> Figs(ns, Order(ns, k)[j])])

\* ------------------------------------------------------------ page
\* the scale (1/10^4) and the place of the view box in the page
Scale(t) == IF t.vb = <<>> THEN 10000 ELSE Min2(MulDiv(t.w, 10000, t.vb[3]), MulDiv(t.h, 10000, t.vb[4]))
Offset(t) == IF t.vb = <<>> THEN <<0, 0>> ELSE <<(t.w - Times(t.vb[3], Scale(t))) \div 2, (t.h - Times(t.vb[4], Scale(t))) \div 2>>
OnPage(t, p) == IF t.vb = <<>> THEN p ELSE <<Times(p[1] - t.vb[1], Scale(t)) + Offset(t)[1], Times(p[2] - t.vb[2], Scale(t)) + Offset(t)[2]>>
OffPage(t, p) == IF t.vb = <<>> THEN p
                 ELSE LET back(v) == IF v < 0 THEN -MulDiv(-v, 10000, Scale(t)) ELSE MulDiv(v, 10000, Scale(t))
                      IN <<back(p[1] - Offset(t)[1]) + t.vb[1], back(p[2] - Offset(t)[2]) + t.vb[2]>>
\* p is (nearly) on the border of the round rectangle of f (before its rotation)
OnBorder(f, p, eps) ==
  LET x == p[1] - f.r[1] y == p[2] - f.r[2] w == f.r[3] h == f.r[4]
      dx == IF x < f.rx THEN f.rx - x ELSE IF x > w - f.rx THEN x - (w - f.rx) ELSE 0
      dy == IF y < f.ry THEN f.ry - y ELSE IF y > h - f.ry THEN y - (h - f.ry) ELSE 0
      u == (dx * 1000) \div Max2(f.rx, 1)
      v == (dy * 1000) \div Max2(f.ry, 1)
      tol == 8 + (2500 * eps) \div Max2(Min2(f.rx, f.ry), 1)
  IN /\ x >= -eps /\ x <= w + eps /\ y >= -eps /\ y <= h + eps
     /\ IF dx > eps /\ dy > eps THEN Abs(u * u + v * v - 1000000) <= 1000 * tol
        ELSE \/ Abs(x) <= eps + f.rx \div 50 \/ Abs(x - w) <= eps + f.rx \div 50 \/ Abs(y) <= eps + f.ry \div 50 \/ Abs(y - h) <= eps + f.ry \div 50
=============================================================================
