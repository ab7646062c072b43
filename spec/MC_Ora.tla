------------------------------- MODULE MC_Ora -------------------------------
EXTENDS Ora, Json, TLC
CONSTANTS N, EMIT
VARIABLES tree, ready
vars == <<tree, ready>>
LABS == {[has |-> FALSE, lab |-> <<>>], [has |-> TRUE, lab |-> <<"a", "*", "*", "2">>]}
Node(p, l, kind, vis, empty) ==
  LET n == Len(tree) + 1
  IN [p |-> p, has |-> l.has, lab |-> l.lab, kind |-> kind, vis |-> vis, x |-> 3 * n, y |-> 40 - n, op |-> IF n = 2 THEN 500 ELSE 1000,
      empty |-> empty, bx |-> n, by |-> 2 * n, bw |-> 5, bh |-> 6, col |-> n]
Init == tree = <<>> /\ ready = FALSE
RECURSIVE Up(_, _)
Up(t, i) == IF i = 0 THEN {0} ELSE (IF t[i].kind = "stack" THEN {i} ELSE {}) \cup Up(t, t[i].p)
Next == ~ready /\ \/ /\ Len(tree) < N
                     /\ \E p \in Up(tree, Len(tree)), l \in LABS, kind \in {"stack", "layer"}, vis \in BOOLEAN, empty \in BOOLEAN :
                          (kind = "stack" => ~empty) /\ tree' = Append(tree, Node(p, l, kind, vis, empty))
                     /\ UNCHANGED ready
                  \/ tree # <<>> /\ ready' = TRUE /\ UNCHANGED tree
Spec == Init /\ [][Next]_vars
P(k) == Painted(tree, k)
In(q, i) == \E j \in 1..Len(q) : q[j] = i
\* a layer below another one (later in the file, or in such a stack) is painted first
Bottom == \A a, b \in 1..Len(P(0)) : a < b => P(0)[a] > P(0)[b]
Once == \A k \in 0..3 : Cardinality(ToSet(P(k))) = Len(P(k))
Some == \A k \in 1..3 : ToSet(P(k)) \subseteq ToSet(P(0))
Hidden == \A i \in 1..Len(tree) : ~tree[i].vis => \A j \in 1..Len(tree) : (tree[j].p = i \/ j = i) => ~In(P(0), j)
Emit == EMIT /\ ready => PrintT("PROG" \o ToJson(tree))
=============================================================================
