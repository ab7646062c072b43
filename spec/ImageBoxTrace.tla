--------------------------- MODULE ImageBoxTrace ---------------------------
(* T[tr]: [wd, hd, pl, pr, pt, pb, full, kids: sizes of earlier contents [w, h], imgs: [w, wu, h, hu, scale, rot, drawn, x, y, dw, dh, ux, got],
          rect: the box, err] *)
EXTENDS ImageBox, Json, IOUtils, TLC
T == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, k, b, done
vars == <<tr, k, b, done>>
Init == /\ tr \in 1..Len(T) /\ k = 1 /\ done = FALSE
        /\ LET t == T[tr] IN b = [wd |-> t.wd, hd |-> t.hd, pw |-> t.pl + t.pr, ph |-> t.pt + t.pb, w |-> t.ask.w, h |-> t.ask.h]
If(c, n) == IF c THEN {n} ELSE {}
Near(x, y, tol) == x - y <= tol /\ y - x <= tol
Natural(m) == [w |-> Pixels(m.w, m.wu), h |-> Pixels(m.h, m.hu)]
Step == /\ ~done /\ k <= Len(T[tr].imgs)
        /\ LET m == T[tr].imgs[k] IN b' = AskImage(b, Natural(m).w, Natural(m).h, m.scale)
        /\ k' = k + 1 /\ UNCHANGED <<tr, done>>
TOL == 40
Image(m, r) ==
  LET d == Drawn(r.w, r.h, Natural(m).w, Natural(m).h, m.scale)
  IN IF d.w <= 0 \/ d.h <= 0 THEN If(m.drawn /\ m.dw > TOL /\ m.dh > TOL, "drawn")
     ELSE IF ~m.drawn THEN {"drawn"}
     ELSE If(~Near(m.dw, d.w, TOL + d.w \div 5000) \/ ~Near(m.dh, d.h, TOL + d.h \div 5000), "scale")
          \cup If(~Near(2 * m.x + m.dw, 2 * r.x + r.w, TOL + d.w \div 5000) \/ ~Near(2 * m.y + m.dh, 2 * r.y + r.h, TOL + d.h \div 5000), "centre")
          \cup If(m.rot # m.wrot, "rotation") \cup If(~m.same, "content")
Judge == /\ ~done /\ k > Len(T[tr].imgs)
         /\ LET t == T[tr]
                w == Inner(b.wd, b.w, b.pw, t.full.w)
                h == Inner(b.hd, b.h, b.ph, t.full.h)
                v == IF t.err # "" THEN {"err"}
                     ELSE If(~Near(t.rect.w, w, TOL + w \div 5000) \/ ~Near(t.rect.h, h, TOL + h \div 5000), "size")
                          \cup UNION {Image(t.imgs[i], t.rect) : i \in 1..Len(t.imgs)}
            IN PrintT("VERDICT" \o ToJson([tr |-> tr, bad |-> SetToSeq(v), info |-> [w |-> w, h |-> h]]))
         /\ done' = TRUE /\ UNCHANGED <<tr, k, b>>
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
