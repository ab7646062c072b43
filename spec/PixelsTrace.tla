---------------------------- MODULE PixelsTrace ----------------------------
(* Pixels of exported pages.  T[tr]: [prog, err, halves, trans, pages: <<[w, h (px), px: <<[x, y, c]>>]>>], x, y in pixels.     *)
EXTENDS Pixels, Json, IOUtils, TLC
T == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, done
vars == <<tr, done>>
Init == tr \in 1..Len(T) /\ done = FALSE
If(c, n) == IF c THEN {n} ELSE {}
Told(t, k) == LET fs == Prepared(t.prog, Picture(t.prog.nodes, k))
                  o == t.pages[k]
              IN FoldLeft(LAMBDA r, q : Append(r, ColorAt(t.prog, fs, <<q.x * 5 + 2, q.y * 5 + 2>>, t.halves, t.trans)), <<>>, o.px)
Page(t, k) == LET o == t.pages[k] IN
  IF o.w * 1000 # t.prog.w \/ o.h * 1000 # t.prog.h THEN [bad |-> {"size"}, n |-> 0]
  ELSE LET c == Told(t, k) IN [bad |-> If(\E j \in 1..Len(c) : c[j] # "?" /\ c[j] # o.px[j].c, "pixels"), n |-> Cardinality({j \in 1..Len(c) : c[j] # "?"})]
Judge == /\ ~done
         /\ LET t == T[tr]
                f == Fragments(t.prog.nodes)
                ps == [k \in 1..Min2(Len(t.pages), f) |-> Page(t, k)]
                v == IF t.err # "" THEN {"err"} ELSE If(Len(t.pages) # f, "pages") \cup UNION {ps[k].bad : k \in 1..Len(ps)}
            IN PrintT("VERDICT" \o ToJson([tr |-> tr, bad |-> SetToSeq(v), info |-> FoldLeft(LAMBDA a, q : a + q.n, 0, ps)]))
         /\ done' = TRUE /\ UNCHANGED tr
Next == Judge
Spec == Init /\ [][Next]_vars
=============================================================================
