---------------------------- MODULE MC_ShellPlan ----------------------------
(* Short sequences of requests with faults at any of their stages, emitted for replay.               *)
EXTENDS Shell, Json
CONSTANTS N, FAULTS
VARIABLES s, hist, nf
vars == <<s, hist, nf>>
Kinds == {"text", "inline", "export", "again"}
Stages(k) == IF k = "export" THEN <<"file-open", "export-type", "export-filename", "export-do", "file-close">>
             ELSE <<"file-open", "select", "query", "file-close">>
\* harmless ones, spoiling ones
FaultsAt(st) == {"noise", "stderr", "chunk", "die_before", "die_after", "die_partial"}
                \cup (IF st = "query" THEN {"junk"} ELSE {}) \cup (IF st = "export-do" THEN {"nofile", "die_partial_file"} ELSE {})
Class(f) == IF f \in {"die_before", "die_after", "die_partial", "die_partial_file"} THEN "die" ELSE f
Init == s = Known0 /\ hist = <<>> /\ nf = 0
Need(k) == IF k = "again" THEN {1} ELSE {Len(hist) + 1}
Req(k, fs) == LET ok == Succeeds(s, Need(k), {Class(f.f) : f \in fs})
              IN /\ s' = After(s, Need(k), {Class(f.f) : f \in fs}, ok)
                 /\ hist' = Append(hist, [k |-> k, fs |-> fs])
                 /\ nf' = nf + Cardinality(fs)
Next == /\ Len(hist) < N
        /\ \E k \in Kinds :
             /\ (k \in {"again", "export"} => Len(hist) > 0)
             /\ \/ Req(k, {})
                \/ /\ nf < FAULTS /\ s.alive
                   /\ \E i \in 1..Len(Stages(k)) : \E f \in FaultsAt(Stages(k)[i]) : Req(k, {[at |-> Stages(k)[i], f |-> f]})
Spec == Init /\ [][Next]_vars
\* nothing succeeds once the process is gone, unless it was known before
Gone == [][~s.alive => (s'.has = s.has)]_vars
Emit == Len(hist) = N => PrintT("PROG" \o ToJson([i \in 1..N |-> [k |-> hist[i].k, fs |-> SetToSeq(hist[i].fs)]]))
=============================================================================
