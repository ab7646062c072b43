----------------------------- MODULE MC_Shapes -----------------------------
(* All slides of a box and up to N further nodes of a small set of boxes and shapes, with and without a view box.       *)
EXTENDS Shapes, Json, TLC
CONSTANTS N, EMIT
VARIABLES ns, vb
vars == <<ns, vb>>
W == 400000
H == 300000
BoxAt(p, x, y, w, h, hz, z, a, b) == [t |-> "box", p |-> p, x |-> x, y |-> y, w |-> w, h |-> h, hasz |-> hz, z |-> z, a |-> a, b |-> b]
NoArrow == [size |-> 0, ang |-> 0, sw |-> 0, inner |-> 0]
ARROWS == {NoArrow, [size |-> 10000, ang |-> 40, sw |-> 0, inner |-> 0], [size |-> 8000, ang |-> 30, sw |-> 0, inner |-> 1500], [size |-> 14000, ang |-> 20, sw |-> 2000, inner |-> 0]}
PAINTS == {<<"255,0,0", "">>, <<"", "0,0,255">>, <<"0,128,0", "255,165,0">>}
Plain(s, c) == [t |-> "item", p |-> 1, s |-> s, c |-> c[1], bg |-> c[2], sw |-> 1000, dash |-> <<>>, rx |-> -1, ry |-> -1, rot |-> 0, pts |-> <<>>, cmds |-> <<>>,
                sa |-> NoArrow, ea |-> NoArrow, iw |-> 0, ih |-> 0, scale |-> 1000]
RADII == {<<-1, -1>>, <<5000, 5000>>, <<8000, -1>>, <<0, 6000>>, <<100000, 4000>>}
TRI == << <<10000, 10000>>, <<90500, 20000>>, <<40000, 70000>> >>
ZIG == << <<20000, 60000>>, <<50000, 20000>>, <<90000, 50000>> >>
ITEMS ==
  {[Plain("rect", c) EXCEPT !.rx = r[1], !.ry = r[2], !.rot = d] : c \in PAINTS, r \in RADII, d \in {0, 30}}
  \cup {[Plain("ellipse", c) EXCEPT !.rot = d, !.sw = 3000] : c \in PAINTS, d \in {0, 30}}
  \cup {[Plain("polygon", c) EXCEPT !.pts = TRI, !.rot = d, !.dash = <<6000, 2000, 3000>>] : c \in PAINTS, d \in {0, 90}}
  \cup {[Plain("line", <<"0,0,0", "">>) EXCEPT !.pts = ZIG, !.sa = a, !.ea = b, !.sw = 2500] : a, b \in ARROWS}
Init == ns = <<BoxAt(0, 30000, 20000, 120000, 80000, FALSE, 0, 1, 0)>> /\ vb \in {<<>>, <<10000, -20000, 300000, 200000>>}
Boxes == {i \in 1..Len(ns) : IsBox(ns[i])}
AddBox == \E p \in {0, 1} : \E z \in {-1, 1} : ns' = Append(ns, BoxAt(p, 20000, 40000, 100000, 90000, TRUE, z, 2, 2))
AddItem == \E it \in ITEMS : \E p \in Boxes : ns' = Append(ns, [it EXCEPT !.p = p])
Next == Len(ns) <= N /\ UNCHANGED vb /\ (AddBox \/ AddItem)
Spec == Init /\ [][Next]_vars
Dist(p, q) == Max2(Abs(p[1] - q[1]), Abs(p[2] - q[2]))
T0 == [w |-> W, h |-> H, vb |-> vb]
Pages == 1..Fragments(ns)
\* what was there is painted as before, in the same order; a new shape only adds its figures
Alone == LET n == Len(ns) IN
  \A k \in Pages : LET o == Order(ns, k) IN
     /\ IF IsBox(ns[n]) THEN Picture(ns, k) = Picture(Front(ns), k) \/ n = 1
        ELSE FlattenSeq([j \in 1..Len(o) |-> IF o[j] = n THEN <<>> ELSE Figs(ns, o[j])]) = Picture(Front(ns), k)
     /\ \A i, j \in 1..Len(o) : i < j => ZLevel(ns, ns[o[i]].p) <= ZLevel(ns, ns[o[j]].p)
\* fill below stroke, nothing without a colour
Colors == \A i \in 1..Len(ns) : ~IsBox(ns[i]) /\ ns[i].s # "line" =>
            LET f == Figs(ns, i) IN [j \in 1..Len(f) |-> f[j].k] = (IF ns[i].bg = "" THEN <<>> ELSE <<"fill">>) \o (IF ns[i].c = "" THEN <<>> ELSE <<"stroke">>)
\* heads are symmetric with their tips at the ends of the line, which ends inside of them
Corner(sub) == <<sub.p>> \o [i \in 1..Len(sub.segs) |-> Last2(sub.segs[i])]
Arrows == \A i \in 1..Len(ns) : ~IsBox(ns[i]) /\ ns[i].s = "line" =>
  LET it == ns[i]  o == Place(ns, it.p)  f == Figs(ns, i)  q == Moved(it.pts, o)[3]  p == Moved(it.pts, o)[2] IN
  it.ea.size > 0 => LET h == Corner(Last2(f).path[1])
                        e == EndOf(f[1].path[1])
                    IN /\ h[2] = q
                       /\ Dist(h[1], Rotate(h[3], q, 2 * it.ea.ang)) < 20
                       /\ Dist(e, q) <= it.ea.size /\ (it.ea.sw = 0 => Dist(e, q) > 2000)
BackAndForth == \A p \in {<<0, 0>>, <<123000, 45000>>, <<400000, 300000>>} : Dist(OnPage(T0, OffPage(T0, p)), p) < 100
\* the whole view box is on the page and touches two opposite sides of it
Meet == vb # <<>> => LET a == OnPage(T0, <<vb[1], vb[2]>>) b == OnPage(T0, <<vb[1] + vb[3], vb[2] + vb[4]>>) IN
          /\ a[1] >= -50 /\ a[2] >= -50 /\ b[1] <= W + 50 /\ b[2] <= H + 50
          /\ (Dist(a, <<0, a[2]>>) < 100 /\ Dist(b, <<W, b[2]>>) < 100) \/ (Dist(a, <<a[1], 0>>) < 100 /\ Dist(b, <<b[1], H>>) < 100)
Emit == EMIT /\ Len(ns) > 1 => PrintT("PROG" \o ToJson([w |-> W, h |-> H, vb |-> vb, nodes |-> ns]))
=============================================================================
