------------------------------ MODULE MC_Text ------------------------------
(* Every text up to length N over a small alphabet, read character by character *)
EXTENDS Text, Json
CONSTANTS N, ALPHA, EMIT
Alpha5 == {"~", "{", "}", "a", "\n"}
Alpha7 == Alpha5 \cup {" ", "&"}
M == [e |-> "~", b |-> "{", c |-> "}"]
VARIABLES in, r
vars == <<in, r>>
Init == in = <<>> /\ r = R0
Next == \E c \in ALPHA : Len(in) < N /\ in' = Append(in, c) /\ r' = Read(r, c, M)
Spec == Init /\ [][Next]_vars
Flat(q) == FoldLeft(LAMBDA a, s : a \o s, "", q)
Expand(q) == FoldLeft(LAMBDA a, s : a \o [i \in 1..Len(s) |-> SubSeq(s, i, i)], <<>>, q)
\* the reader is exact: what it read, written in canonical form, is read as the same
Exact == Complete(r) => ReadAll(Expand(Quote(r, M)), M).out = r.out
\* no character is lost: the canonical form is the input
Nothing == Complete(r) => Flat(Quote(r, M)) = Flat(in)
\* blocks are balanced, and shown characters carry blocks that were opened
Nested == /\ Len(SelectSeq(r.out, LAMBDA t : t.k = "b")) - Len(SelectSeq(r.out, LAMBDA t : t.k = "e")) = Len(r.stack)
          /\ \A i \in 1..Len(r.out) : r.out[i].k = "c" => Len(r.out[i].st) <= r.n
\* reading never changes what was read before
Prefix == [][IsPrefix(r.out, r'.out)]_vars
Emit == EMIT => PrintT("PROG" \o ToJson([in |-> in, plain |-> [i \in 1..Len(Chars(r.out)) |-> Chars(r.out)[i].c]]))
=============================================================================
