----------------------------- MODULE ListsTrace -----------------------------
(* Lists built by the real code, judged against Lists.                                                   *)
(* T[tr]: [ops, err, calls: calls of the label functions, pages: the texts of each page in order, geo: their places] *)
EXTENDS Lists, Json, IOUtils
T == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, k, s, bad, done
vars == <<tr, k, s, bad, done>>
Init == tr \in 1..Len(T) /\ k = 1 /\ s = S0 /\ bad = {} /\ done = FALSE
If(c, n) == IF c THEN {n} ELSE {}
Step == /\ ~done /\ k <= Len(T[tr].ops)
        /\ LET op == T[tr].ops[k]
               r == Apply(s, op)
           IN /\ s' = r
              /\ bad' = bad \cup If(~op.ok /\ op.bad = "", "rejected") \cup If(op.ok /\ op.bad # "", "accepted")
                            \cup If(op.calls # SubSeq(r.calls, Len(s.calls) + 1, Len(r.calls)), "levels")
                            \cup If(op.cur # r.max, "fragments")
              /\ k' = IF op.ok = (op.bad = "") THEN k + 1 ELSE Len(T[tr].ops) + 1
        /\ UNCHANGED <<tr, done>>
Page1(t, f) == LET g == t.pages[f] w == Page(s, f)
               IN If(g = w /\ Misplaced(s, f, t.geo[f]), "places") \cup If(g # w, IF ToSet(g) = ToSet(w) /\ Len(g) = Len(w) THEN "order"
                            ELSE IF {x \in ToSet(g) : Len(x) > 1 /\ SubSeq(x, 1, 1) = "i"} # {x \in ToSet(w) : Len(x) > 1 /\ SubSeq(x, 1, 1) = "i"}
                                 THEN "revealed" ELSE "labels")
Judge == /\ ~done /\ k > Len(T[tr].ops)
         /\ LET t == T[tr]
                b == bad \cup (IF bad \cap {"rejected", "accepted"} # {} THEN {} ELSE IF t.err # "" THEN {"err"}
                               ELSE If(Len(t.pages) # s.max, "fragments") \cup
                                    UNION {Page1(t, f) : f \in 1..(IF Len(t.pages) < s.max THEN Len(t.pages) ELSE s.max)})
            IN PrintT("VERDICT" \o ToJson([tr |-> tr, bad |-> SetToSeq(b), info |-> [max |-> s.max, want |-> [f \in 1..s.max |-> Page(s, f)]]]))
         /\ done' = TRUE /\ UNCHANGED <<tr, k, s, bad>>
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
