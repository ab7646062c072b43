---------------------------- MODULE MC_ImageBox ----------------------------
(* All boxes of a small set of sizes with up to N images.                                               *)
EXTENDS ImageBox, Json, TLC
CONSTANTS N, EMIT
VARIABLES b, imgs, full
vars == <<b, imgs, full>>
SIZEDEFS ==
  {[k |-> "none", v |-> 0], [k |-> "px", v |-> 120000], [k |-> "px", v |-> 30000], [k |-> "px", v |-> 0], [k |-> "ratio", v |-> 50], [k |-> "fill", v |-> 0]}
SIZES == {<<100000, 50000>>, <<33000, 99000>>, <<64000, 64000>>}
Init == /\ imgs = <<>> /\ full = [w |-> 400000, h |-> 300000]
        /\ \E wd, hd \in SIZEDEFS, p \in {0, 10000} : b = [wd |-> wd, hd |-> hd, pw |-> p, ph |-> p, w |-> 0, h |-> 0]
Next == /\ Len(imgs) < N /\ UNCHANGED full
        /\ \E s \in SIZES, sc \in {0, 500, 2000} :
             /\ imgs' = Append(imgs, [w |-> s[1], h |-> s[2], scale |-> sc]) /\ b' = AskImage(b, s[1], s[2], sc)
Spec == Init /\ [][Next]_vars
W == Inner(b.wd, b.w, b.pw, full.w)
H == Inner(b.hd, b.h, b.ph, full.h)
D(i) == Drawn(W, H, imgs[i].w, imgs[i].h, imgs[i].scale)
Near(x, y) == x - y <= 12 /\ y - x <= 12
\* an unscaled image fits and touches the box in one dimension, keeping its ratio
Fitting == \A i \in 1..Len(imgs) : imgs[i].scale = 0 /\ W # 0 /\ H # 0 =>
             /\ D(i).w <= W + 12 /\ D(i).h <= H + 12 /\ (Near(D(i).w, W) \/ Near(D(i).h, H))
             /\ Near(MulDiv(D(i).w, imgs[i].h, imgs[i].w), D(i).h)
\* without definitions every image has room at its scale; the first one, with one definition, gets exactly its shape
Room == \A i \in 1..Len(imgs) : ~IsDef(b.wd) /\ ~IsDef(b.hd) =>
          IF imgs[i].scale = 0 THEN W >= imgs[i].w /\ H >= imgs[i].h ELSE D(i).w <= W /\ D(i).h <= H
Shape == Len(imgs) = 1 /\ b.wd.k = "px" /\ ~IsDef(b.hd) => Near(H, MulDiv(W, imgs[1].h, imgs[1].w))
Shape2 == Len(imgs) = 1 /\ b.hd.k = "px" /\ ~IsDef(b.wd) => Near(W, MulDiv(H, imgs[1].w, imgs[1].h))
Emit == EMIT /\ imgs # <<>> => PrintT("PROG" \o ToJson([wd |-> b.wd, hd |-> b.hd, pad |-> b.pw \div 2, imgs |-> imgs, full |-> full]))
=============================================================================
