-------------------------------- MODULE Ora --------------------------------
(* OpenRaster images: trees of stacks and layers, given from the top to the bottom.  A node is           *)
(*   [p, has, lab, kind: "stack" | "layer", vis, x, y, op (1/1000), empty, bx, by, bw, bh, col]          *)
EXTENDS Image
RECURSIVE Visible(_, _)
Visible(t, i) == i = 0 \/ (t[i].vis /\ Visible(t, t[i].p))
RECURSIVE OffX(_, _)
OffX(t, i) == IF i = 0 THEN 0 ELSE t[i].x + OffX(t, t[i].p)
RECURSIVE OffY(_, _)
OffY(t, i) == IF i = 0 THEN 0 ELSE t[i].y + OffY(t, t[i].p)
RECURSIVE Opacity(_, _)
Opacity(t, i) == IF i = 0 THEN 1000 ELSE (t[i].op * Opacity(t, t[i].p)) \div 1000
\* the layers painted in image fragment k (0: annotations ignored), bottom first
RECURSIVE Below(_, _)
Below(t, p) == \* nodes under p, bottom first, depth first
  LET kids == SelectSeq(Nodes(t), LAMBDA i : t[i].p = p)
  IN FoldLeft(LAMBDA a, i : <<i>> \o Below(t, i) \o a, <<>>, kids)
Painted(t, k) == SelectSeq(Below(t, 0), LAMBDA i : t[i].kind = "layer" /\ ~t[i].empty /\ Visible(t, i)
                                                   /\ (k = 0 \/ InFragment(t, i, k)))
PickOra(t, u, f) ==
  LET k == f - u.begin + 1
  IN CASE k < 1 -> <<>>
       [] u.mode = "all" -> Painted(t, 0)
       [] u.mode = "select" -> IF k > Len(u.list) \/ u.list[k] < 1 THEN <<>> ELSE Painted(t, u.list[k])
       [] OTHER -> Painted(t, k)
\* annotations that count: those of nodes that are converted at all
Converted(t) == SelectSeq(Nodes(t), LAMBDA i : Visible(t, i) /\ (t[i].kind = "layer" => ~t[i].empty))
NeedsOra(t, u) == u.begin - 1 + CASE u.mode = "frags" -> SetMax({1} \cup {Named(SelectorOf(t[i])) : i \in ToSet(Converted(t))})
                                  [] u.mode = "all" -> 1
                                  [] OTHER -> Len(u.list)
=============================================================================
