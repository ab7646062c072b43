------------------------------ MODULE MC_Latex ------------------------------
(* All histories of up to N calls with two contents, each followed by a render.                          *)
EXTENDS Latex, Json, TLC
CONSTANTS N, EMIT
VARIABLES s, hist, ready
vars == <<s, hist, ready>>
Init == s = S0 /\ hist = <<>> /\ ready = FALSE
Do(op) == s' = Apply(s, op) /\ hist' = Append(hist, op) /\ UNCHANGED ready
Next == /\ ~ready
        /\ \/ /\ Len(hist) < N
              /\ \/ hist # <<>> /\ Do([op |-> "run"])
                 \/ \E c \in {"A", "B"}, f \in BOOLEAN : Do([op |-> "snip", c |-> c, fails |-> f, box |-> 1, scale |-> 1000])
                 \/ \E p \in BOOLEAN : Do([op |-> "render", prune |-> p])
           \/ Len(hist) = N /\ ready' = TRUE /\ UNCHANGED <<s, hist>>
Spec == Init /\ [][Next]_vars
Count(c) == Len(SelectSeq(s.log, LAMBDA x : x = c))
\* without pruning and failures, a content is compiled once
Once == (\A i \in 1..Len(hist) : (hist[i].op = "render" => ~hist[i].prune) /\ (hist[i].op = "snip" => ~hist[i].fails)) => \A c \in {"A", "B"} : Count(c) <= 1
Enough == \A i \in 1..Len(hist) : hist[i].op = "snip" => Count(hist[i].c) >= 1
UsedThere == s.used \subseteq s.cache
Failed == \A c \in {"A", "B"} : (\A i \in 1..Len(hist) : hist[i].op = "snip" /\ hist[i].c = c => hist[i].fails) => c \notin s.cache
Emit == EMIT /\ ready => PrintT("PROG" \o ToJson(hist))
=============================================================================
