------------------------------ MODULE ImageBox ------------------------------
(* What images ask of their box, and how they are drawn in it.  Lengths in 1/1000 px (below 1000 px).    *)
EXTENDS Integers, Sequences, SequencesExt
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
\* a * b / c, rounded down, for 0 <= a, b, c <= 10^6 (TLC has 32 bit integers)
MulDiv(a, b, c) == LET hi == (a \div 1000) * b
                   IN (hi \div c) * 1000 + ((hi % c) * 1000 + (a % 1000) * b) \div c
\* the size of an image in px: a length of v/1000 units
Pixels(v, unit) == CASE unit = "mm" -> MulDiv(v, 960, 254) [] unit = "cm" -> MulDiv(v, 9600, 254) [] unit = "pt" -> (v * 4) \div 3
                     [] unit = "in" -> v * 96 [] unit = "pc" -> v * 16 [] OTHER -> v
\* A box: [wd, hd: definitions [k, v], pw, ph: padding of both sides, w, h: the inner size asked for so far]
IsDef(d) == d.k # "none"
Asked(b) == [w |-> Max2(b.w, IF b.wd.k = "px" THEN b.wd.v - b.pw ELSE 0), h |-> Max2(b.h, IF b.hd.k = "px" THEN b.hd.v - b.ph ELSE 0)]
Ask(b, w, h) == [b EXCEPT !.w = Max2(@, w), !.h = Max2(@, h)]
\* an image of natural size iw x ih, of the given scale (1/1000; 0: none)
AskImage(b, iw, ih, scale) ==
  LET a == Asked(b)
      s == IF scale = 0 THEN 1000 ELSE scale
  IN IF ~IsDef(b.wd) /\ ~IsDef(b.hd) THEN Ask(b, MulDiv(iw, s, 1000), MulDiv(ih, s, 1000))
     ELSE Ask(b, MulDiv(a.h, iw, ih), MulDiv(a.w, ih, iw))
\* the inner size of the box along one axis, alone in a parent of inner size `least`, which grows to hold what is asked for
Inner(d, ask, pad, least) == LET full == Max2(least, ask + pad)
                             IN CASE d.k = "none" -> ask
                                  [] d.k = "px" -> Max2(d.v - pad, ask)
                                  [] d.k = "ratio" -> Max2((full * d.v) \div 100 - pad, ask)
                                  [] OTHER -> full - pad
\* the drawn size in a box of inner size w x h
Drawn(w, h, iw, ih, scale) ==
  IF scale # 0 THEN [w |-> MulDiv(iw, scale, 1000), h |-> MulDiv(ih, scale, 1000)]
  ELSE IF w = 0 /\ h = 0 THEN [w |-> 0, h |-> 0]
  ELSE IF h = 0 \/ (w # 0 /\ MulDiv(w, ih, iw) <= h) THEN [w |-> w, h |-> MulDiv(w, ih, iw)]
  ELSE [w |-> MulDiv(h, iw, ih), h |-> h]
=============================================================================
