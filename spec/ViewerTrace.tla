----------------------------- MODULE ViewerTrace -----------------------------
(* T[tr]: [slides, ops: each with seen: <<cell [frags: lists of marks, shown: booleans, number, controls, next, prev (disabled)]>>, err] *)
EXTENDS Viewer, Json, IOUtils, TLC
T == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, k, s, bad, done
vars == <<tr, k, s, bad, done>>
Init == tr \in 1..Len(T) /\ k = 1 /\ s = S0(T[tr].slides) /\ bad = {} /\ done = FALSE
If(c, n) == IF c THEN {n} ELSE {}
Cell(c, g) ==
  If(Len(g.frags) # Len(c.frags) \/ Len(g.shown) # Len(g.frags), "fragments")
  \cup (IF Len(g.frags) = Len(c.frags) /\ Len(g.shown) = Len(g.frags)
        THEN If(\E i \in 1..Len(c.frags) : ToSet(g.frags[i]) # c.frags[i], "content") \cup If(\E i \in 1..Len(c.frags) : g.shown[i] # Displayed(c)[i], "displayed")
        ELSE {})
  \cup If(g.controls # Controls(c), "controls")
  \cup (IF Controls(c) /\ g.controls THEN If(g.number # c.at, "number") \cup If(g.next # NextDisabled(c), "next") \cup If(g.prev # PreviousDisabled(c), "previous") ELSE {})
Step == /\ ~done /\ k <= Len(T[tr].ops)
        /\ LET op == T[tr].ops[k]
               r == Apply(s, op)
           IN /\ s' = r
              /\ bad' = bad \cup (IF Len(op.seen) # Len(r.cells) THEN {"cells"} ELSE UNION {Cell(r.cells[v], op.seen[v]) : v \in 1..Len(op.seen)})
        /\ k' = k + 1 /\ UNCHANGED <<tr, done>>
Judge == /\ ~done /\ k > Len(T[tr].ops)
         /\ PrintT("VERDICT" \o ToJson([tr |-> tr, bad |-> SetToSeq(bad \cup If(T[tr].err # "", "err")), info |-> [n |-> Len(s.cells)]]))
         /\ done' = TRUE /\ UNCHANGED <<tr, k, s, bad>>
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
