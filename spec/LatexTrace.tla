----------------------------- MODULE LatexTrace -----------------------------
(* T[tr]: [pics: content -> picture, ops: with ok, log (contents compiled during the call, exactly), cur and, for render,              *)
(*         pages [c, els, box number, x, y, dw, dh] in order, boxes: rectangles], box: definitions of the boxes]      *)
EXTENDS Latex, Json, IOUtils, TLC
T == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, k, s, page, bad, done
vars == <<tr, k, s, page, bad, done>>
Init == tr \in 1..Len(T) /\ k = 1 /\ s = S0 /\ page = <<>> /\ bad = {} /\ done = FALSE
If(c, n) == IF c THEN {n} ELSE {}
Near(x, y) == x - y <= 40 /\ y - x <= 40
Size(p, scale) == [w |-> MulDiv(Pixels(p.w, p.wu), scale, 1000), h |-> MulDiv(Pixels(p.h, p.hu), scale, 1000)]
\* snippets share a box if they have its number
AskOf(t, b, what(_)) == FoldLeft(LAMBDA a, q : IF q.box = b THEN Max2(a, what(Size(t.pics[q.c], q.scale))) ELSE a, 0, page)
W(z) == z.w
H(z) == z.h
Look(t, op) ==
  LET n == Len(page)
      got(i) == op.drawn[i]
      pic(i) == t.pics[page[i].c]
      one(i) == LET z == Size(pic(i), page[i].scale)
                    r == op.boxes[page[i].box]
                    g == got(i)
                IN If(~SameElements(pic(i), g.els), "elements")
                   \cup (IF SameElements(pic(i), g.els) THEN If(~OwnIds(pic(i), g.els), "ids") \cup If(~Linked(pic(i), g.els), "links") ELSE {})
                   \cup If(~Near(g.dw, z.w) \/ ~Near(g.dh, z.h), "size")
                   \cup If(~Near(2 * g.x + g.dw, 2 * r.x + r.w) \/ ~Near(2 * g.y + g.dh, 2 * r.y + r.h), "centre")
  IN IF Len(op.drawn) # n THEN {"elements"}
     ELSE UNION {one(i) : i \in 1..n}
          \cup If(~Apart([i \in 1..n |-> [c |-> page[i].c, els |-> got(i).els]]), "clash")
          \cup UNION {LET d == t.box[b] r == op.boxes[b]
                      IN If(~Near(r.w, Inner(d.wd, AskOf(t, b, W), d.pw, d.full.w)) \/ ~Near(r.h, Inner(d.hd, AskOf(t, b, H), d.ph, d.full.h)), "box")
                      : b \in 1..Len(op.boxes)}
Step == /\ ~done /\ k <= Len(T[tr].ops)
        /\ LET op == T[tr].ops[k]
               t == T[tr]
               r == Apply(s, op)
               fine == Ok(s, op)
           IN /\ s' = r
              /\ page' = CASE op.op = "run" -> <<>> [] op.op = "snip" /\ fine -> Append(page, [c |-> op.c, box |-> op.box, scale |-> op.scale]) [] OTHER -> page
              /\ bad' = bad \cup If(fine /\ ~op.ok, "rejected") \cup If(~fine /\ op.ok, "accepted")
                            \cup If(op.log # SubSeq(r.log, Len(s.log) + 1, Len(r.log)), "compiled")
                            \cup (IF op.op = "render" /\ op.ok THEN Look(t, op) ELSE {})
              /\ k' = IF fine # op.ok THEN Len(t.ops) + 1 ELSE k + 1
        /\ UNCHANGED <<tr, done>>
Judge == /\ ~done /\ k > Len(T[tr].ops)
         /\ PrintT("VERDICT" \o ToJson([tr |-> tr, bad |-> SetToSeq(bad \cup If(T[tr].err # "", "err")), info |-> [n |-> Len(s.log)]]))
         /\ done' = TRUE /\ UNCHANGED <<tr, k, s, page, bad>>
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
