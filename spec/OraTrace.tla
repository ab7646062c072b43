------------------------------ MODULE OraTrace ------------------------------
(* T[tr]: [tree, use, err, n, pages: per page the layers seen, bottom first: [x, y, w, h, col, op]]       *)
EXTENDS Ora, Json, IOUtils, TLC
T == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, done
vars == <<tr, done>>
Init == tr \in 1..Len(T) /\ done = FALSE
If(c, n) == IF c THEN {n} ELSE {}
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
Page(t, p, f) ==
  LET w == PickOra(t.tree, t.use, f)
      e(j) == LET n == t.tree[w[j]] IN [x |-> OffX(t.tree, w[j]) + n.bx, y |-> OffY(t.tree, w[j]) + n.by, w |-> n.bw, h |-> n.bh]
      cols == [j \in 1..Len(w) |-> t.tree[w[j]].col]
      got == [j \in 1..Len(p) |-> p[j].col]
  IN IF got # cols THEN {IF ToSet(got) = ToSet(cols) /\ Len(got) = Len(cols) THEN "order" ELSE "layers"}
     ELSE UNION {If(\E a \in {"x", "y", "w", "h"} : ~Near(p[j][a], 1000 * e(j)[a], 20), "place")
                 \cup If(~Near(p[j].op, Opacity(t.tree, w[j]), 3), "opacity") : j \in 1..Len(w)}
Judge(t) == IF t.err # "" THEN {"err"}
            ELSE If(Len(t.pages) # Max2(1, NeedsOra(t.tree, t.use)), "count") \cup UNION {Page(t, t.pages[f], f) : f \in 1..Len(t.pages)}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tr
        /\ PrintT("VERDICT" \o ToJson([tr |-> tr, bad |-> SetToSeq(Judge(T[tr])), info |-> [n |-> NeedsOra(T[tr].tree, T[tr].use)]]))
Spec == Init /\ [][Next]_vars
=============================================================================
