----------------------------- MODULE ShellTrace -----------------------------
EXTENDS Shell, Json, IOUtils
T == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, k, s, bad, done
vars == <<tr, k, s, bad, done>>
Init == tr \in 1..Len(T) /\ k = 1 /\ s = Known0 /\ bad = {} /\ done = FALSE
S(q) == {q[i] : i \in 1..Len(q)}
If(c, n) == IF c THEN {n} ELSE {}
Bad(e) ==
  LET w == Succeeds(s, S(e.needs), S(e.fs))
  IN If(e.hang, "hang")
     \cup If(~e.hang /\ w /\ ~e.ok, "rejected")
     \cup If(~w /\ e.ok, IF s.alive /\ ~Fatal(S(e.fs)) THEN "accepted" ELSE "survived")
     \cup If(e.ok /\ ~e.value, "value")
     \cup If(e.stored, "stored")
Step == /\ ~done /\ k <= Len(T[tr].ev)
        /\ LET e == T[tr].ev[k]
           IN /\ bad' = bad \cup Bad(e)
              /\ s' = [After(s, S(e.needs), S(e.fs), e.ok) EXCEPT !.has = @ \cup S(e.present)]
              /\ k' = IF e.hang \/ (k = 1 /\ ~e.ok) THEN Len(T[tr].ev) + 1 ELSE k + 1
        /\ UNCHANGED <<tr, done>>
Judge == /\ ~done /\ k > Len(T[tr].ev)
         /\ PrintT("VERDICT" \o ToJson([tr |-> tr, bad |-> SetToSeq(bad), info |-> [alive |-> s.alive]]))
         /\ done' = TRUE /\ UNCHANGED <<tr, k, s, bad>>
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
