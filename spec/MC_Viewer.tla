------------------------------ MODULE MC_Viewer ------------------------------
(* All histories of N operations on two slides. *)
EXTENDS Viewer, Json, TLC
CONSTANTS N, EMIT
VARIABLES s, hist, ready
vars == <<s, hist, ready>>
Marks == {[a |-> 1, b |-> 0], [a |-> 2, b |-> 0], [a |-> 1, b |-> 3]}
Decks == {<< <<[a |-> 1, b |-> 0]>>, <<[a |-> 1, b |-> 0], [a |-> 2, b |-> 2]>> >>, << <<[a |-> 1, b |-> 1], [a |-> 3, b |-> 0]>>, <<[a |-> 2, b |-> 0]>> >>}
Init == s \in {S0(d) : d \in Decks} /\ hist = <<>> /\ ready = FALSE
Do(op) == s' = Apply(s, op) /\ hist' = Append(hist, op) /\ UNCHANGED ready
Next == /\ ~ready
        /\ \/ /\ Len(hist) < N
              /\ \/ Len(s.cells) < 2 /\ \E i \in 1..2 : Do([op |-> "preview", s |-> i])
                 \/ \E v \in 1..Len(s.cells), d \in {1, -1} : Controls(s.cells[v]) /\ \E k \in {"click", "fire"} : Do([op |-> k, v |-> v, d |-> d])
                 \/ s.cells # <<>> /\ \E i \in 1..2, m \in Marks : Len(s.slides[i]) < 3 /\ Do([op |-> "add", s |-> i, m |-> m])
                 \/ \E v \in 1..Len(s.cells) : Do([op |-> "rerun", v |-> v])
           \/ Len(hist) = N /\ ready' = TRUE /\ UNCHANGED <<s, hist>>
Spec == Init /\ [][Next]_vars
One == \A v \in 1..Len(s.cells) : Cardinality({k \in 1..Len(s.cells[v].frags) : Displayed(s.cells[v])[k]}) = 1
Bounds == \A v \in 1..Len(s.cells) : LET c == s.cells[v] IN c.at \in 1..Len(c.frags) /\ (NextDisabled(c) /\ PreviousDisabled(c) <=> ~Controls(c))
\* the last fragment of a preview that is up to date shows the marks that stay
LastShows == \A v \in 1..Len(s.cells) : LET c == s.cells[v] IN
          \A i \in 1..Len(s.slides[s.of[v]]) : (\E k \in 1..Len(c.frags) : i \in c.frags[k] /\ s.slides[s.of[v]][i].b = 0) => i \in c.frags[Len(c.frags)]
Alone == [][\A v \in 1..Len(s.cells) : s'.cells[v] # s.cells[v] => hist'[Len(hist')].op \in {"click", "fire", "rerun"} /\ hist'[Len(hist')].v = v]_vars
Emit == EMIT /\ ready => PrintT("PROG" \o ToJson([deck |-> [i \in 1..2 |-> s.slides[i]], hist |-> hist]))
=============================================================================
