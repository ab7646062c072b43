----------------------------- MODULE SlideTrace -----------------------------
(* Validates recorded histories of the real code against Slide: every building call is one step.     *)
EXTENDS Slide, Json, IOUtils

T == JsonDeserialize(IOEnv.TRACES)
TOL == 30

VARIABLES tr, k, st, bad, done
vars == <<tr, k, st, bad, done>>

Init == /\ tr \in 1..Len(T)
        /\ k = 1
        /\ st = Init0(T[tr].w, T[tr].h)
        /\ bad = {}
        /\ done = FALSE

Step ==
  /\ ~done /\ k <= Len(T[tr].ops)
  /\ LET op == T[tr].ops[k]
         a == Apply(st, op)
         b1 == IF op.ok # a.ok THEN {"accept"} ELSE {}
         b2 == IF op.ok = a.ok /\ op.cur # a.s.max THEN {"cur"} ELSE {}
     IN /\ st' = IF op.ok = a.ok THEN a.s ELSE st
        /\ bad' = bad \cup b1 \cup b2
        /\ k' = IF b1 = {} THEN k + 1 ELSE Len(T[tr].ops) + 2   \* nothing can be said afterwards
  /\ UNCHANGED <<tr, done>>

Ids(page) == [j \in 1..Len(page) |-> page[j].i]
SeqSet(q) == {q[j] : j \in 1..Len(q)}

PageBad(page, f, rects, fits) ==
  LET want == Painted(st, f)
      got == Ids(page)
      common == SelectSeq(want, LAMBDA i : i \in SeqSet(got))
      gotc == SelectSeq(got, LAMBDA i : i \in SeqSet(want))
  IN (IF SeqSet(want) # SeqSet(got) \/ Len(got) # Cardinality(SeqSet(got)) THEN {"vis"} ELSE {})
     \cup (IF common # gotc THEN {"order"} ELSE {})
     \cup (IF fits /\ \E j \in 1..Len(page) :
                 page[j].i \in 1..Len(st.items) /\ page[j].g # <<>>
                 /\ ~Close(page[j].g, Geo(st, rects, page[j].i), TOL)
           THEN {"geo"} ELSE {})

(* Debug mode: on top of the content of every visible box, at its z-level, its frame and its label, and nothing else. *)
NameOf(t, b) == IF b = 1 THEN t.name ELSE SelectSeq(t.ops, LAMBDA o : o.op = "box" /\ o.ok)[b - 1].name
Thin(v) == Max2(v, 100)       \* a box of no size has a frame all the same
DebugBad(t, f, rects, fits) ==
  LET got == t.frames[f]
      want == FoldLeft(LAMBDA acc, e : acc \o (IF e < 0 THEN <<[k |-> "i", b |-> -e]>>
                                               ELSE <<[k |-> "f", b |-> e], [k |-> "l", b |-> e]>>), <<>>, DebugOrder(st, f))
      r(b) == rects[b]
      wide(b) == Thin(r(b).w)
      high(b) == Thin(r(b).h)
      at(kind, b) == got[CHOOSE j \in 1..Len(want) : want[j].k = kind /\ want[j].b = b]
      wrong(j) == LET w == want[j] g == got[j] IN
        IF w.k # g.k THEN TRUE
        ELSE CASE w.k = "i" -> g.i # w.b
               [] w.k = "f" -> \/ fits /\ ~Close(g.g, <<r(w.b).x, r(w.b).y, wide(w.b), high(w.b)>>, TOL)
                               \/ w.b # 1 /\ g.dash = at("f", st.boxes[w.b].par).dash
               [] OTHER -> LET nm == NameOf(t, w.b) IN
                           \/ g.name # (IF nm = "" THEN " " ELSE " " \o nm \o " ")
                           \/ g.corner \notin {"top", "bottom"}
                           \/ w.b # 1 /\ g.corner = at("l", st.boxes[w.b].par).corner
                           \/ fits /\ ~Close(g.wh, <<wide(w.b), high(w.b)>>, TOL)
                           \/ fits /\ g.g[1] # got[j - 1].g[1]
                           \/ fits /\ LET d == g.g[2] - r(w.b).y IN
                                       IF g.corner = "top" THEN d < 0 \/ d > 16000 ELSE d < high(w.b) - 16000 \/ d > high(w.b)
  IN IF Len(got) # Len(want) THEN {"debug"}
     ELSE IF \E j \in 1..Len(want) : want[j].k # got[j].k THEN {"debug"}
     ELSE IF \E j \in 1..Len(want) : wrong(j) THEN {"debug"} ELSE {}

\* The last step of a history: the rendered pages.  A history marked `nogeo` checks no geometry.
Judge ==
  /\ ~done /\ k > Len(T[tr].ops)
  /\ LET t == T[tr]
         rects == Rects(st, t.w, t.h)
         fits == k = Len(t.ops) + 1 /\ ~t.nogeo /\ Fits(st, rects)
         b == IF k > Len(t.ops) + 1 THEN bad
              ELSE IF t.err # "" THEN bad \cup {"err"}
              ELSE bad \cup (IF Len(t.pages) # NPages(st) THEN {"npages"} ELSE {})
                       \cup UNION {PageBad(t.pages[f], f, rects, fits) : f \in 1..Len(t.pages)}
                       \cup (IF ~t.debug THEN {} ELSE UNION {DebugBad(t, f, rects, fits) : f \in 1..Len(t.frames)})
     IN PrintT("VERDICT" \o ToJson([tr |-> tr, bad |-> SetToSeq(b),
                 info |-> [fits |-> fits, pages |-> NPages(st), boxes |-> Len(st.boxes), items |-> Len(st.items)]]))
  /\ done' = TRUE
  /\ UNCHANGED <<tr, k, st, bad>>

Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
