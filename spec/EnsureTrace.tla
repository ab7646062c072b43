----------------------------- MODULE EnsureTrace -----------------------------
EXTENDS Ensure, Json, IOUtils, SequencesExt
T == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, k, s, bad, done
vars == <<tr, k, s, bad, done>>
Init == tr \in 1..Len(T) /\ k = 1 /\ bad = {} /\ done = FALSE
        /\ s = Start0({T[tr].built[i] : i \in 1..Len(T[tr].built)}, 1..T[tr].n)
Ev(e) ==
  CASE e.e = "call" -> IF CanCall(s, e.t) THEN <<Call(s, e.t, e.k, e.w), {}>> ELSE <<s, {"call"}>>
    [] e.e = "build" -> IF CanBuild(s, e.t) THEN <<Build(s, e.t), {}>>
                        ELSE <<s, IF Builders(s, e.k) # {} THEN {"twice_at_once"} ELSE {"built_again"}>>
    [] e.e = "end" -> IF CanEnd(s, e.t) THEN <<End(s, e.t, e.ok), {}>> ELSE <<s, {"end"}>>
    [] e.e = "ret" -> <<Return(s, e.t),
          (IF ~NothingOwed(Return(s, e.t)) THEN {"nobody_built"} ELSE {})
          \cup (IF ~CanReturn(s, e.t, e.r) THEN {IF e.r = "ok" THEN "early" ELSE "error"} ELSE {})
          \cup (IF e.r = "ok" /\ ~e.path THEN {"path"} ELSE {})
          \cup (IF e.r = "ok" /\ ~e.complete /\ (s.th[e.t].w \/ s.th[e.t].st = "built") THEN {"incomplete"} ELSE {})>>
    [] e.e = "quiet" -> <<s, IF Quiet(s) THEN {} ELSE {"stuck"}>>
    [] e.e = "over" -> <<s, IF \A t \in DOMAIN s.th : s.th[t].st = "idle" THEN {} ELSE {"hang"}>>
Step == /\ ~done /\ k <= Len(T[tr].ev)
        /\ LET r == Ev(T[tr].ev[k])
           IN s' = r[1] /\ bad' = bad \cup r[2] /\ k' = IF r[2] = {} THEN k + 1 ELSE Len(T[tr].ev) + 1
        /\ UNCHANGED <<tr, done>>
Judge == /\ ~done /\ k > Len(T[tr].ev)
         /\ PrintT("VERDICT" \o ToJson([tr |-> tr, bad |-> SetToSeq(bad), info |-> [built |-> Cardinality(s.built)]]))
         /\ done' = TRUE /\ UNCHANGED <<tr, k, s, bad>>
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
