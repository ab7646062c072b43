------------------------------ MODULE MC_Ensure ------------------------------
(* N threads, one call each.  Safety and liveness of the design, and all histories of commands       *)
(* (calls and ends of builds) with the system settled in between, for replay.                        *)
EXTENDS Ensure, Json
CONSTANTS N, KEYS, SETTLE, DEPTH
VARIABLES s, called, hist
vars == <<s, called, hist>>
Threads == 1..N
Keys == 1..KEYS
Init == s = Start0({}, Threads) /\ called = {} /\ hist = <<>>

Internal == \/ \E t \in Threads : CanBuild(s, t) /\ s' = Build(s, t)
            \/ \E t \in Threads : \E r \in {"ok", "err"} : CanReturn(s, t, r) /\ NothingOwed(Return(s, t)) /\ s' = Return(s, t)
\* the eager choices; in settled mode they precede every command
Eager == ENABLED Internal
DoCall(t) == \E k \in Keys, w \in BOOLEAN :
  /\ t \notin called /\ (t = 1 \/ t - 1 \in called)
  /\ s' = Call(s, t, k, w) /\ called' = called \cup {t}
  /\ hist' = Append(hist, [c |-> "call", t |-> t, k |-> k, w |-> w, ok |-> TRUE])
DoEnd(t) == \E ok \in BOOLEAN :
  /\ CanEnd(s, t) /\ s' = End(s, t, ok) /\ called' = called
  /\ hist' = Append(hist, [c |-> "end", t |-> 0, k |-> s.th[t].k, w |-> TRUE, ok |-> ok])
Command == /\ SETTLE => (Len(hist) < DEPTH /\ ~Eager)
           /\ \E t \in Threads : DoCall(t) \/ DoEnd(t)
IntStep == Internal /\ UNCHANGED <<called, hist>>
Next == IntStep \/ Command
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(IntStep) /\ \A t \in Threads : WF_vars(DoEnd(t)) /\ WF_vars(DoCall(t))

View == <<s, called>>
OneBuilder == \A k \in Keys : Cardinality(Builders(s, k)) <= 1 /\ (k \in s.built => Builders(s, k) = {})
Live == \A t \in Threads : [](s.th[t].st = "call" => <>(s.th[t].st = "idle"))
AllDone == \A t \in Threads : []<>(s.th[t].st = "idle")
Emit == (~Eager /\ (Len(hist) = DEPTH \/ (called = Threads /\ \A t \in Threads : s.th[t].st = "idle")))
        => PrintT("PROG" \o ToJson(hist))
=============================================================================
