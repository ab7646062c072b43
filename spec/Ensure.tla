------------------------------- MODULE Ensure -------------------------------
(* The file cache under concurrent requests, as its callers see it.                                  *)
(* A call (thread, key, waits) may start to build the entry, end the build (or fail), and return.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoCall == [k |-> 0, w |-> TRUE, st |-> "idle", met |-> FALSE]
\* state: [built (set of keys), th (thread -> call), owed (set of [k, c]: somebody, first of all one of the threads c, must still build k)]
Start0(built, ts) == [built |-> built, th |-> [t \in ts |-> NoCall], owed |-> {}]

Builders(s, k) == {t \in DOMAIN s.th : s.th[t].k = k /\ s.th[t].st = "build"}
Pending(s) == {t \in DOMAIN s.th : s.th[t].st = "call"}

\* `met`: during the call, somebody else was certainly busy with the entry
Busy(s, k) == {t \in DOMAIN s.th : s.th[t].k = k /\ s.th[t].st \in {"build", "built", "failed"}}
Meet(s) == [s EXCEPT !.th = [t \in DOMAIN s.th |->
              IF s.th[t].st = "call" /\ Busy(s, s.th[t].k) # {} THEN [s.th[t] EXCEPT !.met = TRUE] ELSE s.th[t]]]
\* others that may have claimed the entry without having begun to build it
Claimants(s, t) == {u \in DOMAIN s.th \ {t} : s.th[u].st = "call" /\ s.th[u].k = s.th[t].k}

CanCall(s, t) == s.th[t].st = "idle"
Call(s, t, k, w) == Meet([s EXCEPT !.th[t] = [k |-> k, w |-> w, st |-> "call", met |-> FALSE]])

CanBuild(s, t) == /\ s.th[t].st = "call" /\ s.th[t].k \notin s.built /\ Builders(s, s.th[t].k) = {}
Build(s, t) == Meet([s EXCEPT !.th[t].st = "build", !.owed = {o \in @ : o.k # s.th[t].k}])

CanEnd(s, t) == s.th[t].st = "build"
End(s, t, ok) == IF ok THEN [s EXCEPT !.th[t].st = "built", !.built = @ \cup {s.th[t].k}]
                 ELSE [s EXCEPT !.th[t].st = "failed"]

\* r: "ok" (returned the path), "err" (the error of its own build)
CanReturn(s, t, r) ==
  \/ r = "err" /\ s.th[t].st = "failed"
  \/ r = "ok" /\ s.th[t].st = "built"
  \/ r = "ok" /\ s.th[t].st = "call" /\ s.th[t].k \in s.built
  \/ r = "ok" /\ s.th[t].st = "call" /\ ~s.th[t].w /\ (s.th[t].met \/ Claimants(s, t) # {})
\* a caller that relied on a claim leaves the obligation that one of the claimants builds
Owes(s, t) == s.th[t].st = "call" /\ s.th[t].k \notin s.built /\ ~s.th[t].met
Return(s, t) == [s EXCEPT !.th[t] = NoCall,
                          !.owed = {[o EXCEPT !.c = @ \ {t}] : o \in @} \cup
                                    (IF Owes(s, t) THEN {[k |-> s.th[t].k, c |-> Claimants(s, t)]} ELSE {})]
NothingOwed(s) == \A o \in s.owed : o.c # {}

\* when nothing moves but the constructors: only waiting callers of an entry under construction are pending
Quiet(s) == \A t \in DOMAIN s.th :
              s.th[t].st \in {"idle", "build"} \/ (s.th[t].st = "call" /\ s.th[t].w /\ Builders(s, s.th[t].k) # {})
=============================================================================
