----------------------------- MODULE ImageTrace -----------------------------
(* Slides with images built by the real code, judged against Image: every building call is one step.    *)
(* T[tr]: [files, ops, err, pages: per page the images seen [i, ids] in order]                          *)
EXTENDS Image, Json, IOUtils, TLC
T == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, k, st, bad, done
vars == <<tr, k, st, bad, done>>
Init == tr \in 1..Len(T) /\ k = 1 /\ st = Slide0 /\ bad = {} /\ done = FALSE
If(c, n) == IF c THEN {n} ELSE {}
Step == /\ ~done /\ k <= Len(T[tr].ops)
        /\ LET op == T[tr].ops[k]
               s == IF op.op = "box" THEN AddBox(st, op.par, op.sel) ELSE AddImage(st, T[tr].files, op.box, op.file, op.use)
           IN st' = s /\ bad' = bad \cup If(~op.ok, "rejected") \cup If(op.ok /\ op.cur # s.max, "count")
        /\ k' = k + 1 /\ UNCHANGED <<tr, done>>
Page(t, f) ==
  LET p == t.pages[f]
      got(i) == {j \in 1..Len(p) : p[j].i = i}
      want(i) == ImageIn(st, t.files, i, f)
      shown == {i \in 1..Len(st.imgs) : \E j \in 1..Len(p) : p[j].i = i}
  IN UNION {LET w == want(i) g == got(i)
                q == IF Cardinality(g) = 1 THEN p[CHOOSE j \in g : TRUE].ids ELSE <<>>
            IN If(Cardinality(g) > 1, "twice")
               \cup If(Cardinality(g) <= 1 /\ (w = NOTHING \/ w = <<>>) /\ q # <<>>, "shown")
               \cup If(Cardinality(g) <= 1 /\ w # NOTHING /\ ToSet(q) # ToSet(w), "elements")
               \cup If(Cardinality(g) <= 1 /\ w # NOTHING /\ ToSet(q) = ToSet(w) /\ q # w, "order")
            : i \in 1..Len(st.imgs)}
Judge == /\ ~done /\ k > Len(T[tr].ops)
         /\ LET t == T[tr]
                b == bad \cup (IF bad \cap {"rejected"} # {} THEN {}
                               ELSE IF t.err # "" THEN {"err"}
                               ELSE If(Len(t.pages) # st.max, "count") \cup UNION {Page(t, f) : f \in 1..Len(t.pages)})
            IN PrintT("VERDICT" \o ToJson([tr |-> tr, bad |-> SetToSeq(b), info |-> [n |-> st.max]]))
         /\ done' = TRUE /\ UNCHANGED <<tr, k, st, bad>>
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
