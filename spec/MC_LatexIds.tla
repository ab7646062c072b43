----------------------------- MODULE MC_LatexIds -----------------------------
(* All small structures of ids and references of up to N elements with up to one reference each.         *)
EXTENDS Latex, Json, TLC
CONSTANTS N, EMIT
VARIABLES els, ready
vars == <<els, ready>>
Init == els = <<>> /\ ready = FALSE
IDS == {"", "a", "ab", "a-1", "a.1"}
REFS == {<<>>} \cup {<<[k |-> k, to |-> x]>> : k \in {"href", "url", "text"}, x \in {"a", "ab", "a-1"}}
Next == /\ ~ready
        /\ \/ /\ Len(els) < N
              /\ \E i \in IDS, r \in REFS : i \notin Names(els) /\ els' = Append(els, [id |-> i, refs |-> r])
              /\ UNCHANGED ready
           \/ els # <<>> /\ ready' = TRUE /\ UNCHANGED els
Spec == Init /\ [][Next]_vars
Pic == [els |-> els]
\* renaming all ids by one suffix keeps all links: what the property asks for can be had
Sfx(x) == x \o "-0"
Renamed == [i \in 1..Len(els) |-> [id |-> IF els[i].id = "" THEN "" ELSE Sfx(els[i].id),
             refs |-> [j \in 1..Len(els[i].refs) |-> [els[i].refs[j] EXCEPT !.to = IF Target(Pic, els[i].refs[j]) > 0 THEN Sfx(@) ELSE @]]]]
Possible == ready => SameElements(Pic, Renamed) /\ OwnIds(Pic, Renamed) /\ Linked(Pic, Renamed)
\* leaving any of them alone does not
Needed == ready => (Linked(Pic, els) /\ \A i \in 1..Len(els) : \A j \in 1..Len(els[i].refs) : Target(Pic, els[i].refs[j]) = 0 => els[i].refs[j].to = Renamed[i].refs[j].to)
Emit == EMIT /\ ready => PrintT("PROG" \o ToJson(els))
=============================================================================
